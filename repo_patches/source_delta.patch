From b687b314ae08ec7118c9fd50e56ac0efa79325ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:15 +0000
Subject: [PATCH 01/27] fix: AES-CTR: use the keystream bytes in order in a
 partial final block

The last 1-3 bytes of a message that is not a multiple of four bytes were
XORed with keystream bytes taken from the wrong end of the word, and from
shift counts beyond the word size after the first.
---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 94bd16916b303b84bdde2c46f68bdc5c99ff75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:15 +0000
Subject: [PATCH 02/27] fix: AES-CFB: use the keystream words and bytes in
 order in a partial final block

A partial final block was XORed with the keystream words from last to first,
and with bytes from the wrong end of the word, which is not CFB and reads
shift counts beyond the word size.
---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp                | 6 +++---
 BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp | 6 +++---
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..c7ae317 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -287,10 +287,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -301,7 +301,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..1fb118a 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -323,10 +323,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -337,7 +337,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..9a705fd 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -322,10 +322,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -336,7 +336,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From bd88d605838d37e8b8be49e38c7488e2d05904f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:35 +0000
Subject: [PATCH 03/27] fix: AES-CFB: carry exactly the last 16 ciphertext
 bytes over to the next packet

Generating keystream overwrote the feedback register (except with the x86
intrinsics), and the register update after a partial block mixed byte orders
and read one past the words it meant, so that the implementations disagreed
and a register no longer held the last ciphertext bytes.
---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp      | 156 ++---------------
 .../AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp    | 157 ++----------------
 .../AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp    | 156 ++---------------
 3 files changed, 33 insertions(+), 436 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index c7ae317..dbe1b2a 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
+#include <cstring>
 #include <string>
 
 uint32_t RotByte(uint32_t word)
@@ -65,6 +66,9 @@ void aes_cfb_initialize(aes_state *cs, uint8_t key[16], uint8_t iv[16])
 
 void aes_encrypt(aes_state *cs, uint32_t keystream[])
 {
+	// The register is only replaced by ciphertext
+	uint32_t reg[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -80,6 +84,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	cs->reg1 = reg[0]; cs->reg2 = reg[1];
+	cs->reg3 = reg[2]; cs->reg4 = reg[3];
 }
 
 void full_state_update(aes_state *cs, uint32_t *ctxt)
@@ -92,151 +98,11 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the oldest bytes out of the register, and
+	// the new ciphertext bytes in.
+	uint8_t *reg = (uint8_t*)&(cs->reg1);
+	std::memmove(reg, reg + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index 1fb118a..db12f39 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
+#include <cstring>
 #include <string>
 
 #if __ARM_NEON
@@ -98,8 +99,10 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = veorq_u8(B_S, B_K10);
 
 	vst1q_u8((uint8_t*)keystream, B_S);
-	vst1q_u8((uint8_t*)&cs->reg1, B_S);
 #else
+	// The register is only replaced by ciphertext
+	uint32_t reg[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -115,6 +118,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	cs->reg1 = reg[0]; cs->reg2 = reg[1];
+	cs->reg3 = reg[2]; cs->reg4 = reg[3];
 #endif
 }
 
@@ -128,151 +133,11 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the oldest bytes out of the register, and
+	// the new ciphertext bytes in.
+	uint8_t *reg = (uint8_t*)&(cs->reg1);
+	std::memmove(reg, reg + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index 9a705fd..36b518f 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
+#include <cstring>
 #include <string>
 
 #ifdef x86_INTRINSICS
@@ -99,6 +100,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
 
 #else
+	// The register is only replaced by ciphertext
+	uint32_t reg[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -114,6 +118,8 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	cs->reg1 = reg[0]; cs->reg2 = reg[1];
+	cs->reg3 = reg[2]; cs->reg4 = reg[3];
 #endif
 }
 
@@ -127,151 +133,11 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the oldest bytes out of the register, and
+	// the new ciphertext bytes in.
+	uint8_t *reg = (uint8_t*)&(cs->reg1);
+	std::memmove(reg, reg + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
-- 
2.43.0


From 37b4c2b672f06f5602360944aa2c430f5c6f061d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:13 +0000
Subject: [PATCH 04/27] fix: SHA-256: reserve a second padding block when size
 mod 64 is 56 or 63

For these lengths the padding and length field were written past the end of
the padded message, and one block was not hashed.
---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 80f05b8c49c61d27285eee21b7cf74c81d0afe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:13 +0000
Subject: [PATCH 05/27] fix: SHA-256: hold the padded message on the heap, with
 a 64-bit length

The padded copy was a variable-length array, so messages of a few megabytes
overflowed the stack, and its size was an int.
---
 Authentication/HMAC-SHA-256/sha-256.cpp | 10 ++++++----
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp      | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/sha-256.cpp b/Authentication/HMAC-SHA-256/sha-256.cpp
index a900cd3..928d9f4 100644
--- a/Authentication/HMAC-SHA-256/sha-256.cpp
+++ b/Authentication/HMAC-SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -132,6 +132,8 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		ss.digest[6] = ss.working_variables[6] + ss.digest[6];
 		ss.digest[7] = ss.working_variables[7] + ss.digest[7];
 	}
+	delete[] msg;
+
 	// Make sure output is little-endian
 	uint32_t *u32_digest = (uint32_t*)digest;
 	for (int i = 0; i < 8; i++)
diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index a900cd3..928d9f4 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -132,6 +132,8 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		ss.digest[6] = ss.working_variables[6] + ss.digest[6];
 		ss.digest[7] = ss.working_variables[7] + ss.digest[7];
 	}
+	delete[] msg;
+
 	// Make sure output is little-endian
 	uint32_t *u32_digest = (uint32_t*)digest;
 	for (int i = 0; i < 8; i++)
-- 
2.43.0


From 8176c2f7cafa1091ef818eb36fc2aacfa0e46055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:13 +0000
Subject: [PATCH 06/27] fix: HMAC: never accept a tag for an empty message

Validation compared the received tag with an uninitialised array, because
generation writes nothing for an empty message.
---
 Authentication/HMAC-SHA-256/hmac.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..be3720f 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -86,6 +86,10 @@ void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_
 
 int hmac_tag_validation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
+	// No tag is generated for an empty message, so there is
+	// nothing a received tag could match.
+	if ( dataLength < 1 ) return 0;
+
 	// Generate a tag from the received message
 	uint8_t newTag[tagLength];
 	hmac_tag_generation(cs, newTag, message, dataLength, tagLength);
-- 
2.43.0


From 839a06cff3636369d2841aa29c7020618db9b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 07/27] fix: HC-128: continue with the next step in the next
 packet

Every packet restarted the step counter at 0, so that the tables were updated
in the wrong order for every packet after the first and the output was no
longer HC-128 keystream.
---
 StreamCiphers/HC-128/hc128.cpp | 6 +++++-
 StreamCiphers/HC-128/hc128.h   | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..19bbdf7 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -37,6 +37,8 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 		cs->P[i] = W[i+256];
 		cs->Q[i] = W[i+768];
 	}
+	// No keystream has been generated yet
+	cs->step = 0;
 	/////////////////////////////////////////////
 	// Stage 3: Iterate cipher 1024 steps, and update P, Q with output
 	//
@@ -64,8 +66,10 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
 {
 	// Generate keystream
-	for (int i = 0; i <= (size-1)/4; i++)
+	for (uint64_t k = 0; k <= (size-1)/4; k++)
 	{
+		// The step continues where the previous packet left off
+		uint32_t i = cs->step++;
 		int j = (i&0x1FF);
 		if ( (i&0x3FF) < 512 )
 		{
diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 40e20f7..b0dda7f 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -37,6 +37,8 @@
 struct hc128_state{
 	uint32_t P[512];
 	uint32_t Q[512];
+	// Number of keystream words generated so far
+	uint32_t step;
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-- 
2.43.0


From 98948310a6c49688d37ea9cb21c6289453f16cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:40 +0000
Subject: [PATCH 08/27] fix: HC-128: hold the keystream of a packet on the heap

The keystream was a variable-length array as large as the packet, which
overflows the stack for packets of a few megabytes.
---
 StreamCiphers/HC-128/hc128.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 19bbdf7..72706b1 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -96,12 +96,12 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 	if ( size < 1 ) return;
 		
 
-	uint32_t keystream[(size-1)/4 +1];
+	uint32_t *keystream = new uint32_t[(size-1)/4 +1];
 
 	// Generate enough keystream
 	hc128_generate_keystream(cs, keystream, size);
 
-	int counter = 0;
+	uint64_t counter = 0;
 	// Process a full word
 	while ( size > 3 )
 	{
@@ -116,4 +116,6 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 		// Mix keystream to the final bytes
 		*output = *input ^ *byteptr; byteptr++; output++; input++;
 	}	
+
+	delete[] keystream;
 }
-- 
2.43.0


From f39d74815447c530ccedd323c52fa0c0771686fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:41 +0000
Subject: [PATCH 09/27] fix: Rabbit: carry when a counter sum is exactly 2^32

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From b8e3ddd1567bb3d7cee5248bfae92f75c4727c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:41 +0000
Subject: [PATCH 10/27] fix: Rabbit: restore the master carry bit when an IV is
 loaded

The counter carry is part of the master state. Loading an IV in a context that
had processed data kept the carry left behind by that data.
---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90acd8e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_carry;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..006faed 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -32,6 +32,7 @@ static const uint32_t A[8] = {
 struct rabbit_state{
 	uint32_t MASTER_X[8];
 	uint32_t MASTER_C[8];
+	uint8_t MASTER_carry;
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
-- 
2.43.0


From 2da211157c3effce8811a46d49ffd2c44cfc4887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:02 +0000
Subject: [PATCH 11/27] fix: Rabbit: square the g-function operand without
 signed overflow

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 006faed..12ea761 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -22,7 +22,7 @@
 #define ROTR_32(x,n) ( (x >> (n)) | (x << (32-(n)) ) )
 #define ROTL_32(x,n) ROTR_32(x,(32-(n)))
 
-#define WORDSIZE 0x100000000
+#define WORDSIZE 0x100000000ULL
 
 static const uint32_t A[8] = {
 	0x4d34d34d, 0xd34d34d3, 0x34d34d34, 0x4d34d34d,
-- 
2.43.0


From dee7405898c1b5855c7b85e614cc2a93a601c587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:02 +0000
Subject: [PATCH 12/27] fix: Sosemanuk: update the FSM from the previous R1 and
 from s[t+1], s[t+8]

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..32d8883 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t R1_prev = cs->R1;
+	cs->R1 = cs->R2 + mux(R1_prev, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(R1_prev);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From 0c8f0be374126017e5bf29c1f17751354b54fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:02 +0000
Subject: [PATCH 13/27] fix: Serpent: append the padding bit of a short key as
 0x01

---
 BlockCiphers/Serpent/serpent.cpp    | 7 ++++---
 StreamCiphers/Sosemanuk/serpent.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..2dcbb7b 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,10 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, since the bits
+		// of a byte are taken from the least significant:
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..2dcbb7b 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,10 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, since the bits
+		// of a byte are taken from the least significant:
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From adc9ac5635f326db3d084a1313851bb75a45aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:02 +0000
Subject: [PATCH 14/27] fix: AEGIS-128: do not let the block loops underflow
 for short messages

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..af95fc6 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..646b6c0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..fc0cce7 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From e6d6070828f679431760b1fcae4c817110872b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:02 +0000
Subject: [PATCH 15/27] fix: ChaCha: byte_swap writes to its output

---
 StreamCiphers/ChaCha/chacha.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index 2198104..dc096b9 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -22,7 +22,7 @@ void byte_swap(uint8_t *output, uint8_t *input, int size)
 		uint32_t num = ((uint32_t*)input)[i];
 		uint32_t swapped = ((num >> 24)&0xff) | ((num << 8)&0xff0000) |
 			((num >> 8)&0xff00) | ((num << 24)&0xff000000);
-		((uint32_t*)input)[i] = swapped;
+		((uint32_t*)output)[i] = swapped;
 	}
 }
 
-- 
2.43.0


From 596d3e479e6fd24db5e423f89b0e25113c320faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:27 +0000
Subject: [PATCH 16/27] fix: DES: use the round keys of each round

---
 Legacy/DES/des.cpp | 4 ++--
 Legacy/DES/des.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..380e626 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -94,8 +94,8 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs->rk+4*i, &Y, &X, &T);
+		DES_ROUND(cs->rk+4*i+2, &X, &Y, &T);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..1cd2a5e 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,9 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+// The two round key words of the round start at rk_ptr
+inline void DES_ROUND(const u32 *rk_ptr, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From 323b32983ea9d2a0cbbcc1a66bc5f6dc0bd85443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:45 +0000
Subject: [PATCH 17/27] fix: DES: read and write key and block bytes in the
 order of the standard

---
 Legacy/DES/des.cpp | 10 ++++------
 Legacy/DES/des.h   | 13 +++++++++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 380e626..fa217e7 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -6,10 +6,8 @@ void des_key_schedule_encrypt(des_state *cs, u8 *key)
 	int i;
 	u32 X, Y, T;
 
-	u32 *key_ptr = (u32*)key;
-
-	X = *key_ptr++;
-	Y = *key_ptr;
+	X = DES_GET_WORD(key);
+	Y = DES_GET_WORD(key+4);
 
 	u32 *rk_ptr = cs->rk;
 
@@ -88,7 +86,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 {
 	u32 X, Y, T;
 
-	X = *input++; Y = *input; 
+	X = DES_GET_WORD((u8*)input); Y = DES_GET_WORD((u8*)(input+1));
 
 	DES_IP(&X, &Y, &T);
 
@@ -100,7 +98,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	DES_FP(&Y, &X, &T);
 
-	*output++ = Y; *output = X;
+	DES_PUT_WORD((u8*)output, Y); DES_PUT_WORD((u8*)(output+1), X);
 }
 
 void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index 1cd2a5e..96d652c 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -235,6 +235,19 @@ static const u32 Sbox8[64] =
     0x00001040, 0x00040040, 0x10000000, 0x10041000
 };
 
+// The standard numbers the bits of a block from the most significant
+// bit of its first byte, so words are read and written big-endian.
+inline u32 DES_GET_WORD(const u8 *in)
+{
+	return ((u32)in[0] << 24) | ((u32)in[1] << 16) | ((u32)in[2] << 8) | (u32)in[3];
+}
+
+inline void DES_PUT_WORD(u8 *out, u32 word)
+{
+	out[0] = (u8)(word >> 24); out[1] = (u8)(word >> 16);
+	out[2] = (u8)(word >> 8); out[3] = (u8)word;
+}
+
 inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 {
 	*T = ((*X >>  4) ^ *Y) & 0x0f0f0f0f; *Y ^= *T; *X ^= (*T <<  4);
-- 
2.43.0


From 33ef43c2f29d75847f4a106884c0441ffa0fbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:45 +0000
Subject: [PATCH 18/27] fix: DES-CTR: let the block counter enter the encrypted
 block

---
 Legacy/DES/des.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index fa217e7..34b6cfa 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -114,10 +114,10 @@ void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size)
 {
 	// We always assume that the size divides the block size.
-	// Furthermore, we use a 96 bit nonce and a 32 bit counter.
-	u32 iv[4];
-	std::memcpy(iv, nonce, 12);
-	iv[3] = 0;
+	// The counter block has the size of a block, 64 bits: it starts as the
+	// first 64 bits of the nonce, and its second word counts the blocks.
+	u32 iv[2];
+	std::memcpy(iv, nonce, 8);
 	while (size > 0)
 	{
 		u32 keystream[2] = {0};
@@ -129,6 +129,6 @@ void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce,
 		*output = *input ^ keystream[1];
 		output++; input++;
 
-		iv[3] += 1; size -= 8;
+		iv[1] += 1; size -= 8;
 	}
 }
-- 
2.43.0


From fc9ac186f16058cd385b196579609eb8a39c1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:35 +0000
Subject: [PATCH 19/27] fix: labelled HE: derive the mask from the label only,
 not from leftover memory

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..a265615 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -1,6 +1,7 @@
 #include "labeled_he.h"
 #include "../../Joye_libert/joye_libert.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -54,10 +55,11 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 	
-	// Load label into the array
+	// Load label into the end of the array, so that a short label has leading zeros
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-	mpz_export(keystream, &size, 1, 1, 0, 0, label);
+	mpz_export(keystream + (msgsize/8 - size), &size, 1, 1, 0, 0, label);
 
 	// Encrypt the array
 	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
-- 
2.43.0


From e39b28d06418b6fb573a7ef5ded2ace69eeaf579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:46 +0000
Subject: [PATCH 20/27] fix: Rabbit: copy the keystream out instead of writing
 it through a uint16_t pointer

---
 StreamCiphers/Rabbit/rabbit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 90acd8e..a017bb3 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -141,7 +141,7 @@ void rabbit_extract_keystream(rabbit_state *cs, uint32_t *keystream)
 	rabbit_counter(cs);
 	rabbit_next_state(cs);
 
-	uint16_t *ks_ptr = (uint16_t*)keystream;
+	uint16_t ks_ptr[8];
 
 	ks_ptr[0] = (cs->X[0]&0xffff) ^ ( (cs->X[5] >> 16) & 0xffff);
 	ks_ptr[1] = ( (cs->X[0] >> 16) & 0xffff) ^ (cs->X[3] & 0xffff);
@@ -152,6 +152,7 @@ void rabbit_extract_keystream(rabbit_state *cs, uint32_t *keystream)
 	ks_ptr[6] = (cs->X[6]&0xffff) ^ ( (cs->X[3] >> 16) & 0xffff);
 	ks_ptr[7] = ( (cs->X[6] >> 16) & 0xffff) ^ (cs->X[1] & 0xffff);
 
+	std::memcpy(keystream, ks_ptr, 16);
 }
 
 void rabbit_process_packet(rabbit_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
-- 
2.43.0


From 30388e1fb70b64e0e11cadbe18bcc8703c986860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:05 +0000
Subject: [PATCH 21/27] fix: multi-user labelled HE: derive the mask from the
 label only, not from leftover memory

---
 .../muLabeledHE/mu_labeled_he.cpp                           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1919d2a..72d7c2a 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../joye_libert/joye_libert.h"
 #include "../HC-128/hc128.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -62,10 +63,11 @@ void mu_he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 
-	// Load label into the array
+	// Load label into the end of the array, so that a short label has leading zeros
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-        mpz_export(keystream, &size, 1, 1, 0, 0, label);
+        mpz_export(keystream + (msgsize/8 - size), &size, 1, 1, 0, 0, label);
 	
 	// Encrypt the array
 	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
-- 
2.43.0


From 51f2b452c599df000b51799fe933a5928f202745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:05 +0000
Subject: [PATCH 22/27] fix: ChaCha: process packets of 2 GiB and more

---
 StreamCiphers/ChaCha/chacha.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index dc096b9..124d6d7 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -77,24 +77,24 @@ void chacha_block(chacha_state *cs, uint32_t counter, uint32_t *keystream)
 void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
 {
 	// Generate sufficient keystream;
-	int n_words = std::ceil(double(size)/4);
+	uint64_t n_words = std::ceil(double(size)/4);
 
-	int n_iterations = std::ceil(double(n_words)/16);
+	uint64_t n_iterations = std::ceil(double(n_words)/16);
 
 	uint32_t *keystream = new uint32_t[n_iterations*16];
 
 	uint32_t counter = 1;
 
-	for (int i = 0; i < n_iterations; i++)
+	for (uint64_t i = 0; i < n_iterations; i++)
 	{
 		chacha_block(cs, counter, &(keystream[16*i]));
 		counter++;
 	}
 
-	int n_bytes = size;
+	uint64_t n_bytes = size;
 	uint32_t *w_ptr_in = (uint32_t*) input;
 	uint32_t *w_ptr_out = (uint32_t*) output;
-	int ks_index = 0;
+	uint64_t ks_index = 0;
 	while (n_bytes > 3)
 	{
 		*w_ptr_out = *w_ptr_in ^ keystream[ks_index];
-- 
2.43.0


From a60224c7615ed9a79a037de7e51f95b050923a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:05 +0000
Subject: [PATCH 23/27] fix: AEGIS-128: index the associated data with 64 bits

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 4 ++--
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 4 ++--
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index af95fc6..459afa7 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 646b6c0..6a57485 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index fc0cce7..40b0dc6 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
-- 
2.43.0


From 03982cf80ca2aa9402071957a9e3044987d6e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:05 +0000
Subject: [PATCH 24/27] fix: MD5: do not let the block loop wrap around on an
 update of almost 4 GiB

---
 Legacy/MD5/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Legacy/MD5/md5.cpp b/Legacy/MD5/md5.cpp
index acf7093..c9df553 100644
--- a/Legacy/MD5/md5.cpp
+++ b/Legacy/MD5/md5.cpp
@@ -131,7 +131,7 @@ void MD5Update(MD5_CTX *context, u8 *input, u32 inputLen)
   if (inputLen >= partLen) {
 	MD5_memcpy((u8*)&context->buffer[index], (u8*)input, partLen);
  	MD5Transform (context->state, context->buffer);
-	for (i = partLen; i + 63 < inputLen; i += 64)
+	for (i = partLen; inputLen - i > 63; i += 64)
    		MD5Transform (context->state, &input[i]);
  	index = 0;
   }
-- 
2.43.0


From bd6ef251c87afe27b913581b19b7667999468c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:05:06 +0000
Subject: [PATCH 25/27] fix: hex: index the encoded text with size_t

---
 Encoders/Hex/encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Encoders/Hex/encoder.cpp b/Encoders/Hex/encoder.cpp
index 8d1c597..b9359ce 100644
--- a/Encoders/Hex/encoder.cpp
+++ b/Encoders/Hex/encoder.cpp
@@ -14,7 +14,7 @@
 void hex_encode(char* output, const uint8_t* input, int size)
 {
 	int loop;
-	int i;
+	size_t i;
 
 	i = 0;
 	loop = 0;
-- 
2.43.0


From 8421d902b724feec49c26c7059db866d4648bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:57:37 +0000
Subject: [PATCH 26/27] fix: do not print the secret mask during labelled
 encryption and subtraction

The diagnostic output is now guarded by DEBUG, as in joye_libert.cpp.
---
 .../LabeledHE/labeled_he.cpp                         | 12 ++++++++++++
 .../muLabeledHE/mu_labeled_he.cpp                    | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index a265615..fe95f7a 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -67,7 +67,9 @@ void he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -234,7 +236,9 @@ void he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
+#ifdef DEBUG
 	std::cout << "Inside sub\n";
+#endif
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -243,19 +247,27 @@ void he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
+#ifdef DEBUG
 	std::cout << "Computing inverse a\n";
+#endif
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
 	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
+#ifdef DEBUG
 	std::cout << "Adding a\n";
+#endif
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
+#ifdef DEBUG
 	std::cout << "Multiplying beta\n";
+#endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 72d7c2a..0dafca5 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -75,7 +75,9 @@ void mu_he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -242,7 +244,9 @@ void mu_he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
+#ifdef DEBUG
 	std::cout << "Inside sub\n";
+#endif
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -251,19 +255,27 @@ void mu_he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
+#ifdef DEBUG
 	std::cout << "Computing inverse a\n";
+#endif
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
 	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
+#ifdef DEBUG
 	std::cout << "Adding a\n";
+#endif
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
+#ifdef DEBUG
 	std::cout << "Multiplying beta\n";
+#endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
-- 
2.43.0


From c5e079aeef085357de6acea5bb3e4fd214d1a103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:58:50 +0000
Subject: [PATCH 27/27] fix: release the temporaries of the Joye-Libert and
 labelled HE functions

Every call leaked its GMP numbers, and key generation its random state, so a
process that keeps encrypting ran out of memory.
---
 .../Joye_libert/joye_libert.cpp                |  7 +++++++
 .../LabeledHE/labeled_he.cpp                   | 18 ++++++++++++++++++
 .../muLabeledHE/mu_labeled_he.cpp              | 18 ++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 7f082c1..1c69e8b 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -157,6 +157,9 @@ void joye_libert_keygen(
 	std::cout << "Legendre y/p final: " << legendre_p << std::endl;
 	std::cout << "Legendre y/q final: " << legendre_q << std::endl;
 #endif
+
+	mpz_clears(q, p_test, q_test, pseudo_safeness_divisor, pseudo_test_p, pseudo_test_q, mod, one, t, tmp, NULL);
+	gmp_randclear(state);
 }
 
 void joye_libert_encrypt(
@@ -196,6 +199,8 @@ void joye_libert_encrypt(
 #ifdef DEBUG
 	gmp_printf("c: %Zd\n", c);
 #endif
+
+	mpz_clears(x, k_exp, tmp1, tmp2, NULL);
 }
 
 void joye_libert_decrypt(
@@ -255,4 +260,6 @@ void joye_libert_decrypt(
 	{
 		mpz_add(m, m, B);
 	}
+
+	mpz_clears(B, D, C, exp_msgsize, exp_y, neg_exp_y, p_1, z, exp_c, NULL);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index fe95f7a..dae30c5 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -83,6 +83,8 @@ void he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void he_eval_mult(
@@ -127,6 +129,8 @@ void he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void he_eval_mult_3(
@@ -190,6 +194,8 @@ void he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, a13beta2, a23beta1, ptspace, NULL);
 }
 
 void he_eval_add(
@@ -212,6 +218,8 @@ void he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
 }
 
 void he_eval_add(
@@ -270,6 +278,8 @@ void he_eval_sub(
 #endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void he_eval_sub(
@@ -285,6 +295,8 @@ void he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	mpz_clear(c2_inv);
 }
 
 void he_eval_cmult(
@@ -306,6 +318,8 @@ void he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	mpz_clear(ptspace);
 }
 
 void he_eval_cmult(
@@ -348,6 +362,8 @@ void he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	mpz_clears(b, ptspace, NULL);
 }
 
 void he_decrypt(
@@ -368,4 +384,6 @@ void he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	mpz_clear(ptspace);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 0dafca5..01f00a2 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -91,6 +91,8 @@ void mu_he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void mu_he_eval_mult(
@@ -135,6 +137,8 @@ void mu_he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void mu_he_eval_mult_3(
@@ -198,6 +202,8 @@ void mu_he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, a13beta2, a23beta1, ptspace, NULL);
 }
 
 void mu_he_eval_add(
@@ -220,6 +226,8 @@ void mu_he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_add(
@@ -278,6 +286,8 @@ void mu_he_eval_sub(
 #endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void mu_he_eval_sub(
@@ -293,6 +303,8 @@ void mu_he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	mpz_clear(c2_inv);
 }
 
 void mu_he_eval_cmult(
@@ -314,6 +326,8 @@ void mu_he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_cmult(
@@ -356,6 +370,8 @@ void mu_he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	mpz_clears(b, ptspace, NULL);
 }
 
 void mu_he_decrypt(
@@ -376,4 +392,6 @@ void mu_he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	mpz_clear(ptspace);
 }
-- 
2.43.0

