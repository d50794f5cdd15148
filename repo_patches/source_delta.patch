From 7265c4f51c3418dcf0e4df3b0909afef50ad3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:08 +0000
Subject: [PATCH 1/5] fix: require SSSE3 before using the amd64 assembly

blockAMD64 uses PSHUFB, an SSSE3 instruction, but the feature gate only
checked SSE3. On a CPU reporting SHA, AVX and SSE4.1 without SSSE3 every
full block raised SIGILL instead of using the generic implementation.
---
 sha1cdblock_amd64.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sha1cdblock_amd64.go b/sha1cdblock_amd64.go
index 6b716ab..2704779 100644
--- a/sha1cdblock_amd64.go
+++ b/sha1cdblock_amd64.go
@@ -14,6 +14,7 @@ var hasSHANI = (runtime.GOARCH == "amd64" &&
 	cpuid.CPU.Supports(cpuid.AVX) &&
 	cpuid.CPU.Supports(cpuid.SHA) &&
 	cpuid.CPU.Supports(cpuid.SSE3) &&
+	cpuid.CPU.Supports(cpuid.SSSE3) &&
 	cpuid.CPU.Supports(cpuid.SSE4))
 
 // blockAMD64 hashes the message p into the current state in h.
-- 
2.43.0


From 8f3a1847871074d4a1aa7fa745b75c08249ed24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:32 +0000
Subject: [PATCH 2/5] fix: keep the collision flag across
 MarshalBinary/UnmarshalBinary

MarshalBinary dropped the flag and UnmarshalBinary neither restored nor
cleared it: restoring a state saved after a collision was found reported
the data as clean, and restoring a clean state into a hash that had found
a collision kept reporting one. States in which a collision was found are
now saved under their own identifier; clean states are encoded as before.
---
 internal/const.go |  4 ++++
 sha1cd.go         | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/const.go b/internal/const.go
index 944a131..101a14e 100644
--- a/internal/const.go
+++ b/internal/const.go
@@ -39,4 +39,8 @@ const (
 
 	Magic         = "shacd\x01"
 	MarshaledSize = len(Magic) + 5*4 + Chunk + 8
+
+	// MagicCollision identifies the marshaled state of a hash in which a
+	// collision has already been found. It must be as long as Magic.
+	MagicCollision = "shacd\x02"
 )
diff --git a/sha1cd.go b/sha1cd.go
index 865a995..cf46748 100644
--- a/sha1cd.go
+++ b/sha1cd.go
@@ -38,7 +38,11 @@ type digest struct {
 
 func (d *digest) MarshalBinary() ([]byte, error) {
 	b := make([]byte, 0, shared.MarshaledSize)
-	b = append(b, shared.Magic...)
+	if d.col {
+		b = append(b, shared.MagicCollision...)
+	} else {
+		b = append(b, shared.Magic...)
+	}
 	b = appendUint32(b, d.h[0])
 	b = appendUint32(b, d.h[1])
 	b = appendUint32(b, d.h[2])
@@ -73,7 +77,11 @@ func appendUint64(b []byte, v uint64) []byte {
 }
 
 func (d *digest) UnmarshalBinary(b []byte) error {
-	if len(b) < len(shared.Magic) || string(b[:len(shared.Magic)]) != shared.Magic {
+	if len(b) < len(shared.Magic) {
+		return errors.New("crypto/sha1: invalid hash state identifier")
+	}
+	col := string(b[:len(shared.Magic)]) == shared.MagicCollision
+	if !col && string(b[:len(shared.Magic)]) != shared.Magic {
 		return errors.New("crypto/sha1: invalid hash state identifier")
 	}
 	if len(b) != shared.MarshaledSize {
@@ -88,6 +96,7 @@ func (d *digest) UnmarshalBinary(b []byte) error {
 	b = b[copy(d.x[:], b):]
 	b, d.len = consumeUint64(b)
 	d.nx = int(d.len % shared.Chunk)
+	d.col = col
 	return nil
 }
 
-- 
2.43.0


From 09b38ff8e891e09ee4d3cb68abe1a0b9291a8adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:44 +0000
Subject: [PATCH 3/5] fix: give the cgo fallback the same API as the cgo build

With CGO_ENABLED=0 CalculateDvMask took a pointer instead of an array and
Size and BlockSize were missing, so code written against the cgo package
(this repository's own tests included) did not compile without cgo.
---
 cgo/fallback_no_cgo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cgo/fallback_no_cgo.go b/cgo/fallback_no_cgo.go
index 2656ed1..1ba9176 100644
--- a/cgo/fallback_no_cgo.go
+++ b/cgo/fallback_no_cgo.go
@@ -10,10 +10,15 @@ import (
 	"github.com/pjbgf/sha1cd/ubc"
 )
 
+const (
+	Size      = sha1cd.Size
+	BlockSize = sha1cd.BlockSize
+)
+
 // CalculateDvMask falls back to github.com/pjbgf/sha1cd/ubc implementation
 // due to CGO being disabled at compilation time.
-func CalculateDvMask(W *[80]uint32) uint32 {
-	return ubc.CalculateDvMask(W)
+func CalculateDvMask(W [80]uint32) uint32 {
+	return ubc.CalculateDvMask(&W)
 }
 
 // CalculateDvMask falls back to github.com/pjbgf/sha1cd implementation
-- 
2.43.0


From c9cabc077cc7b6d7ecc913ce0ad22cee216cbace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:08 +0000
Subject: [PATCH 4/5] fix: undo the recompression steps from step 58 in the
 right word order

hasCollided rotated the working words once for every step between the
recompression step and 65 even though those steps are not undone. For the
18 disturbance vectors tested from step 58 that is two rotations too many:
the reconstructed chaining value was wrong, so collision attacks using
those vectors were never detected, unlike by the C implementation.
---
 sha1cdblock_generic.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sha1cdblock_generic.go b/sha1cdblock_generic.go
index a80148e..29633a4 100644
--- a/sha1cdblock_generic.go
+++ b/sha1cdblock_generic.go
@@ -194,24 +194,24 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	// The existing collision detection does not have dvs higher than 65,
 	// start value of i accordingly.
 	for i := uint32(64); i >= 60; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K3 + (m1[i] ^ dm[i]) // m2 = m1 ^ dm.
 		}
 	}
 	for i := uint32(59); i >= 40; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := ((b | c) & d) | (b & c)
 			e -= bits.RotateLeft32(a, 5) + f + shared.K2 + (m1[i] ^ dm[i])
 		}
 	}
 	for i := uint32(39); i >= 20; i-- {
-		a, b, c, d, e = b, c, d, e, a
 		if step > i {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30)
 			f := b ^ c ^ d
 			e -= bits.RotateLeft32(a, 5) + f + shared.K1 + (m1[i] ^ dm[i])
@@ -219,8 +219,8 @@ func hasCollided(step uint32, m1, dm *[shared.Rounds]uint32,
 	}
 	for i := uint32(20); i > 0; i-- {
 		j := i - 1
-		a, b, c, d, e = b, c, d, e, a
 		if step > j {
+			a, b, c, d, e = b, c, d, e, a
 			b = bits.RotateLeft32(b, -30) // undo the rotate left
 			f := b&c | (^b)&d
 			// subtract from e
-- 
2.43.0


From 0a2a1bdaf21d773a66563053a166ca840743e011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:04 +0000
Subject: [PATCH 5/5] fix: arm64 assembly tested a register it never set

blockARM64 decided whether there is a block to process by comparing R16 with
R16 plus the length, without ever setting R16. Assembly may not rely on the
contents of R16: with a value within 64 of 2^64 in it the sum wraps around and
the block is silently skipped. Test the length itself.
---
 sha1cdblock_arm64.s | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sha1cdblock_arm64.s b/sha1cdblock_arm64.s
index 6376204..e869b99 100644
--- a/sha1cdblock_arm64.s
+++ b/sha1cdblock_arm64.s
@@ -37,15 +37,13 @@ TEXT ·blockARM64(SB), NOSPLIT, $80-96
 
     LSR     $6, R2, R2
     LSL     $6, R2, R2
-    ADD     R16, R2, R21
 
 	VLD1.P	16(R0), [V0.S4]
 	FMOVS	(R0), F20
 	SUB	$16, R0, R0
 
 loop:
-	CMP     R16, R21
-	BLS     end
+	CBZ     R2, end
 
 	// Load block (p) into 16-bytes vectors.
 	VLD1.P	16(R1), [V4.B16]
-- 
2.43.0

