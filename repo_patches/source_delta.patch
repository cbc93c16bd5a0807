From 5b7ccbcbf1e3e28c2e9f3ad22441aa19dd6402bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:13 +0000
Subject: [PATCH 01/32] fix: SHA-256 pads messages of 63 mod 64 bytes with a
 second block

The padded buffer was one block short when size%64 == 63: padding was
written past the buffer and the length never hashed.
---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 1ec3c7ad4232fc432eb4067ba13185680f395ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:13 +0000
Subject: [PATCH 02/32] fix: SHA-256 message length is not limited by the stack
 or by int

The padded copy was a variable-length array sized with an int: messages
larger than the stack crashed and those of 2 GiB and more overflowed.
---
 Authentication/HMAC-SHA-256/sha-256.cpp | 10 ++++++----
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp      | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/sha-256.cpp b/Authentication/HMAC-SHA-256/sha-256.cpp
index a900cd3..928d9f4 100644
--- a/Authentication/HMAC-SHA-256/sha-256.cpp
+++ b/Authentication/HMAC-SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -132,6 +132,8 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		ss.digest[6] = ss.working_variables[6] + ss.digest[6];
 		ss.digest[7] = ss.working_variables[7] + ss.digest[7];
 	}
+	delete[] msg;
+
 	// Make sure output is little-endian
 	uint32_t *u32_digest = (uint32_t*)digest;
 	for (int i = 0; i < 8; i++)
diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index a900cd3..928d9f4 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -132,6 +132,8 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		ss.digest[6] = ss.working_variables[6] + ss.digest[6];
 		ss.digest[7] = ss.working_variables[7] + ss.digest[7];
 	}
+	delete[] msg;
+
 	// Make sure output is little-endian
 	uint32_t *u32_digest = (uint32_t*)digest;
 	for (int i = 0; i < 8; i++)
-- 
2.43.0


From a21503cf727c864a5518a499a0360c36146e01b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:27 +0000
Subject: [PATCH 03/32] fix: HMAC generates and validates tags of empty
 messages

Tag generation returned without writing a tag, so validation compared
the received tag with uninitialised memory.
---
 Authentication/HMAC-SHA-256/hmac.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..895a45b 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -55,9 +55,6 @@ void hmac_load_key(hmac_state *cs, uint8_t *key, int keysize)
 
 void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
-	// Assert that datalength is strictly positive
-	if ( dataLength < 1 ) return;
-
 	// The inner key is used in the first computation along with the message
 	uint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];
 	std::memcpy(inner_computation, cs->inner_key, HMAC_KEYLENGTH);
-- 
2.43.0


From 8221b84b725b9e53547fe441fbef7ab4866a0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:40 +0000
Subject: [PATCH 04/32] fix: AES-CTR applies the leading keystream bytes to a
 packet's tail

The last one to three bytes were masked with the wrong bytes of the
keystream word, and from the second on with an out-of-range shift.
---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 982d32553da8fa9c428c729f00e8676227510e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:26 +0000
Subject: [PATCH 05/32] fix: AES-CFB masks the bytes of a packet's tail with
 distinct keystream bytes

---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp                | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..600181f 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -301,7 +301,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l++)))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..948f5bf 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -337,7 +337,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l++)))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..c95b5c7 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -336,7 +336,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l++)))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 3099d656e9ac561c61723e762117b15591e64595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:26 +0000
Subject: [PATCH 06/32] fix: AES-CFB shifts the ciphertext of a partial block
 into the register

For 7, 8 and 12 byte tails words of the register were lost or read from the
wrong position; without intrinsics (and on ARM) the register was overwritten
with cipher output before the update, so that decryption never
resynchronised.
---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp      | 36 +++++++++---------
 .../AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp    | 37 ++++++++++---------
 .../AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp    | 36 +++++++++---------
 3 files changed, 57 insertions(+), 52 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 600181f..c759571 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -65,21 +65,23 @@ void aes_cfb_initialize(aes_state *cs, uint8_t key[16], uint8_t iv[16])
 
 void aes_encrypt(aes_state *cs, uint32_t keystream[])
 {
-	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
+	// The register itself keeps the ciphertext feedback
+	uint32_t s1 = cs->reg1, s2 = cs->reg2, s3 = cs->reg3, s4 = cs->reg4;
+	initial_round(&s1, &s2, &s3, &s4, &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[8]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[12]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[16]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[4]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[8]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[12]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[16]));
 	#endif
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[20]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[24]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[28]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[32]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[36]));
-	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
-	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
-	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	round(&s1, &s2, &s3, &s4, &(cs->rk[20]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[24]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[28]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[32]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[36]));
+	final_round(&s1, &s2, &s3, &s4, &(cs->rk[40]));
+	keystream[0] = s1; keystream[1] = s2;
+	keystream[2] = s3; keystream[3] = s4;
 }
 
 void full_state_update(aes_state *cs, uint32_t *ctxt)
@@ -105,14 +107,14 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = cs->reg3;
 			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
+			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
 			cs->reg4 = (*((uint32_t*)ctxt));
 		}
 		else
 		{
 			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
+			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
+			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
 			cs->reg4 = (*((uint32_t*)ctxt));
 		}
 	}
@@ -208,7 +210,7 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
 			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
+			cs->reg3 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
 			cs->reg4 = (*((uint32_t*)ctxt));
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index 948f5bf..3736f69 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -98,23 +98,24 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = veorq_u8(B_S, B_K10);
 
 	vst1q_u8((uint8_t*)keystream, B_S);
-	vst1q_u8((uint8_t*)&cs->reg1, B_S);
 #else
-	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
+	// The register itself keeps the ciphertext feedback
+	uint32_t s1 = cs->reg1, s2 = cs->reg2, s3 = cs->reg3, s4 = cs->reg4;
+	initial_round(&s1, &s2, &s3, &s4, &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[8]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[12]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[16]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[4]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[8]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[12]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[16]));
 	#endif
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[20]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[24]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[28]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[32]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[36]));
-	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
-	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
-	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	round(&s1, &s2, &s3, &s4, &(cs->rk[20]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[24]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[28]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[32]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[36]));
+	final_round(&s1, &s2, &s3, &s4, &(cs->rk[40]));
+	keystream[0] = s1; keystream[1] = s2;
+	keystream[2] = s3; keystream[3] = s4;
 #endif
 }
 
@@ -141,14 +142,14 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = cs->reg3;
 			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
+			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
 			cs->reg4 = (*((uint32_t*)ctxt));
 		}
 		else
 		{
 			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
+			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
+			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
 			cs->reg4 = (*((uint32_t*)ctxt));
 		}
 	}
@@ -244,7 +245,7 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
 			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
+			cs->reg3 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
 			cs->reg4 = (*((uint32_t*)ctxt));
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c95b5c7..04a121d 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -99,21 +99,23 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
 
 #else
-	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
+	// The register itself keeps the ciphertext feedback
+	uint32_t s1 = cs->reg1, s2 = cs->reg2, s3 = cs->reg3, s4 = cs->reg4;
+	initial_round(&s1, &s2, &s3, &s4, &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[8]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[12]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[16]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[4]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[8]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[12]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[16]));
 	#endif
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[20]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[24]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[28]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[32]));
-	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[36]));
-	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
-	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
-	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+	round(&s1, &s2, &s3, &s4, &(cs->rk[20]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[24]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[28]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[32]));
+	round(&s1, &s2, &s3, &s4, &(cs->rk[36]));
+	final_round(&s1, &s2, &s3, &s4, &(cs->rk[40]));
+	keystream[0] = s1; keystream[1] = s2;
+	keystream[2] = s3; keystream[3] = s4;
 #endif
 }
 
@@ -140,14 +142,14 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = cs->reg3;
 			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
+			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
 			cs->reg4 = (*((uint32_t*)ctxt));
 		}
 		else
 		{
 			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
+			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
+			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
 			cs->reg4 = (*((uint32_t*)ctxt));
 		}
 	}
@@ -243,7 +245,7 @@ void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 		{
 			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
 			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
+			cs->reg3 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
 			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
 			cs->reg4 = (*((uint32_t*)ctxt));
-- 
2.43.0


From 8fe1c43de8edc59204f49e7f790662a4f23df2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:45 +0000
Subject: [PATCH 07/32] fix: AEGIS processes messages shorter than a block

The loop bounds msglen-15 and msglen-3 wrapped around for short messages
and the loops ran far past the buffers.
---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..af95fc6 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..646b6c0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..fc0cce7 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp+15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp+15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp+3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From 8f09390ebb6a7fa96b05d47531a20ebd8433d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:45 +0000
Subject: [PATCH 08/32] fix: AEGIS counts associated-data blocks in 64 bits

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 4 ++--
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 4 ++--
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index af95fc6..81da51d 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < adlen/16 + (adlen % 16 != 0); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < adlen/16 + (adlen % 16 != 0); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 646b6c0..316de3b 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < adlen/16 + (adlen % 16 != 0); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < adlen/16 + (adlen % 16 != 0); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index fc0cce7..36dc26b 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < adlen/16 + (adlen % 16 != 0); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < adlen/16 + (adlen % 16 != 0); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
-- 
2.43.0


From 85504593d078c96f746fcbb4bde40e1966bf7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:07 +0000
Subject: [PATCH 09/32] fix: Rabbit carries when a counter addition wraps to
 exactly zero

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From c85d1e38765cbad61b2601e96f07951a573abe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:07 +0000
Subject: [PATCH 10/32] fix: Rabbit IV set-up starts from the master state's
 carry

The carry left by earlier packets or IVs leaked into the new stream.
---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90acd8e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_carry;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..006faed 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -32,6 +32,7 @@ static const uint32_t A[8] = {
 struct rabbit_state{
 	uint32_t MASTER_X[8];
 	uint32_t MASTER_C[8];
+	uint8_t MASTER_carry;
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
-- 
2.43.0


From c2b1bbe6b0702375fed10bd28f991fe7118b19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:07 +0000
Subject: [PATCH 11/32] fix: HC-128 keystream continues across packets

Every packet restarted the step counter at table P, index 0.
---
 StreamCiphers/HC-128/hc128.cpp | 10 ++++++----
 StreamCiphers/HC-128/hc128.h   |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..451119b 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -58,16 +58,18 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 					cs->Q[(i-511)&0x1FF]) ) ^
 			h2(cs, cs->Q[(i-12)&0x1FF]);
 	}
-
+	cs->counter = 0;
 }
 
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
 {
-	// Generate keystream
-	for (int i = 0; i <= (size-1)/4; i++)
+	// Generate keystream, continuing from the previous packet
+	for (uint64_t n = 0; n <= (size-1)/4; n++)
 	{
+		int i = cs->counter;
+		cs->counter = (cs->counter + 1) & 0x3FF;
 		int j = (i&0x1FF);
-		if ( (i&0x3FF) < 512 )
+		if ( i < 512 )
 		{
 			// Operate on P
 			cs->P[j] = cs->P[j] + g1(cs->P[(j-3)&0x1FF],
diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 40e20f7..3523f25 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -37,6 +37,7 @@
 struct hc128_state{
 	uint32_t P[512];
 	uint32_t Q[512];
+	uint32_t counter;	// Keystream words generated so far, modulo 1024
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-- 
2.43.0


From dbc62bf3c30771bd6f16bdb44a8342a6e683e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:07 +0000
Subject: [PATCH 12/32] fix: HC-128 packet size is not limited by the stack

---
 StreamCiphers/HC-128/hc128.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 451119b..da58476 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -94,12 +94,12 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 	if ( size < 1 ) return;
 		
 
-	uint32_t keystream[(size-1)/4 +1];
+	uint32_t *keystream = new uint32_t[(size-1)/4 +1];
 
 	// Generate enough keystream
 	hc128_generate_keystream(cs, keystream, size);
 
-	int counter = 0;
+	uint64_t counter = 0;
 	// Process a full word
 	while ( size > 3 )
 	{
@@ -114,4 +114,5 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 		// Mix keystream to the final bytes
 		*output = *input ^ *byteptr; byteptr++; output++; input++;
 	}	
+	delete[] keystream;
 }
-- 
2.43.0


From a3925a943eee9b9c820b2494a2dcbb7b6c98a24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 13/32] fix: DES uses the subkey of each round

All 16 rounds used the first subkey.
---
 Legacy/DES/des.cpp | 4 ++--
 Legacy/DES/des.h   | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..00d6fe1 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -94,8 +94,8 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs, 2*i, &Y, &X, &T);
+		DES_ROUND(cs, 2*i+1, &X, &Y, &T);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..0c8847a 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,10 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+inline void DES_ROUND(des_state *cs, int round, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
+	// Two subkey words per round
+	u32 *rk_ptr = cs->rk + 2*round;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From 5d263f7d1b92910e982e700e5378ff81d94ae25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 14/32] fix: DES reads and writes keys and blocks in big-endian
 order

---
 Legacy/DES/des.cpp |  8 ++++----
 Legacy/DES/des.h   | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 00d6fe1..8bbd710 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -8,8 +8,8 @@ void des_key_schedule_encrypt(des_state *cs, u8 *key)
 
 	u32 *key_ptr = (u32*)key;
 
-	X = *key_ptr++;
-	Y = *key_ptr;
+	X = DES_LOAD(key_ptr++);
+	Y = DES_LOAD(key_ptr);
 
 	u32 *rk_ptr = cs->rk;
 
@@ -88,7 +88,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 {
 	u32 X, Y, T;
 
-	X = *input++; Y = *input; 
+	X = DES_LOAD(input++); Y = DES_LOAD(input);
 
 	DES_IP(&X, &Y, &T);
 
@@ -100,7 +100,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	DES_FP(&Y, &X, &T);
 
-	*output++ = Y; *output = X;
+	DES_STORE(output++, Y); DES_STORE(output, X);
 }
 
 void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index 0c8847a..72a55c1 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -235,6 +235,19 @@ static const u32 Sbox8[64] =
     0x00001040, 0x00040040, 0x10000000, 0x10041000
 };
 
+// DES numbers bits from the most significant bit of the first byte
+inline u32 DES_LOAD(const u32 *word)
+{
+	const u8 *b = (const u8*)word;
+	return ((u32)b[0] << 24) | ((u32)b[1] << 16) | ((u32)b[2] << 8) | (u32)b[3];
+}
+
+inline void DES_STORE(u32 *word, u32 value)
+{
+	u8 *b = (u8*)word;
+	b[0] = (u8)(value >> 24); b[1] = (u8)(value >> 16); b[2] = (u8)(value >> 8); b[3] = (u8)value;
+}
+
 inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 {
 	*T = ((*X >>  4) ^ *Y) & 0x0f0f0f0f; *Y ^= *T; *X ^= (*T <<  4);
-- 
2.43.0


From 32903e30b72d33b0474662749e48c44a5f08e1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 15/32] fix: DES-CTR encrypts each block under its own counter
 value

The counter was outside the 64-bit block given to DES, so that every block
of every packet was masked with the same keystream.
---
 Legacy/DES/des.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 8bbd710..e3cc1d1 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -116,10 +116,10 @@ void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size)
 {
 	// We always assume that the size divides the block size.
-	// Furthermore, we use a 96 bit nonce and a 32 bit counter.
-	u32 iv[4];
-	std::memcpy(iv, nonce, 12);
-	iv[3] = 0;
+	// Furthermore, the first 8 bytes of the nonce are the initial counter
+	// block, whose last 32 bits count the blocks (big-endian).
+	u32 iv[2];
+	std::memcpy(iv, nonce, 8);
 	while (size > 0)
 	{
 		u32 keystream[2] = {0};
@@ -131,6 +131,6 @@ void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce,
 		*output = *input ^ keystream[1];
 		output++; input++;
 
-		iv[3] += 1; size -= 8;
+		DES_STORE(iv+1, DES_LOAD(iv+1) + 1); size -= 8;
 	}
 }
-- 
2.43.0


From f8b9c4225fab1eb2b8fc631c870d44d994714cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 16/32] fix: Serpent pads short keys with a 1-bit in its
 little-endian bit order

---
 BlockCiphers/Serpent/serpent.cpp    | 6 +++---
 StreamCiphers/Sosemanuk/serpent.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..974cc39 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex (little-endian bit order):
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..974cc39 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex (little-endian bit order):
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From 5bd776f0cfb21a25751abfbb55e16e1a1f698588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 17/32] fix: Sosemanuk finite state machine follows the
 specification

mux selects between s[t+1] and s[t+1]^s[t+8], and R2 is computed from the
previous R1.
---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..e11ad12 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t prev_R1 = cs->R1;
+	cs->R1 = cs->R2 + mux(prev_R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(prev_R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From 2633b02fa3baeb51edd682a8929ad2f2584e3b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:57 +0000
Subject: [PATCH 18/32] fix: Sosemanuk packets of whole blocks do not discard a
 keystream block

---
 StreamCiphers/Sosemanuk/sosemanuk.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.cpp b/StreamCiphers/Sosemanuk/sosemanuk.cpp
index 70f3fba..9edb4c3 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.cpp
+++ b/StreamCiphers/Sosemanuk/sosemanuk.cpp
@@ -78,6 +78,8 @@ void sosemanuk_process_packet(sosemanuk_state *cs, uint8_t *out, uint8_t *in, ui
 		size -= 16;
 	}
 
+	if (size == 0) return;
+
 	sosemanuk_fsm_update(cs, &f_buf[0]);
 	sosemanuk_lfsr_update(cs, &s_buf[0]);
 	
-- 
2.43.0


From d6f08c6ba10d2d955523dfba541535447f8d06e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:59 +0000
Subject: [PATCH 19/32] fix: label masks do not depend on uninitialised bytes
 beyond the label

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp     | 2 ++
 .../muLabeledHE/mu_labeled_he.cpp                               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..48782d6 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -1,6 +1,7 @@
 #include "labeled_he.h"
 #include "../../Joye_libert/joye_libert.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -54,6 +55,7 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 	
 	// Load label into the array
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1919d2a..294702d 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../joye_libert/joye_libert.h"
 #include "../HC-128/hc128.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -62,6 +63,7 @@ void mu_he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 
 	// Load label into the array
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-- 
2.43.0


From 53e0afc6ee17cfd637d37e9d9c174ec438a1c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:59 +0000
Subject: [PATCH 20/32] fix: label masks do not depend on what was encrypted
 before

Keeps b = F(K, label) now that the HC-128 keystream continues from packet
to packet.
---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp  | 5 ++++-
 .../muLabeledHE/mu_labeled_he.cpp                            | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 48782d6..bf9aeac 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -62,7 +62,10 @@ void he_encrypt(
 	mpz_export(keystream, &size, 1, 1, 0, 0, label);
 
 	// Encrypt the array
-	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
+	// The mask is a function of the seed and the label only, so start
+	// from the seeded state for every label
+	hc128_state prf = *hc_cs;
+	hc128_process_packet(&prf, keystream, keystream, msgsize/8);
 
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 294702d..407d44e 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -70,7 +70,10 @@ void mu_he_encrypt(
         mpz_export(keystream, &size, 1, 1, 0, 0, label);
 	
 	// Encrypt the array
-	hc128_process_packet(hc_cs, keystream, keystream, msgsize/8);
+	// The mask is a function of the seed and the label only, so start
+	// from the seeded state for every label
+	hc128_state prf = *hc_cs;
+	hc128_process_packet(&prf, keystream, keystream, msgsize/8);
 	
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
-- 
2.43.0


From efe16f828973830d5eabab83cd02dac792867ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:59 +0000
Subject: [PATCH 21/32] fix: labeled encryption prints label masks and progress
 only under DEBUG

---
 .../LabeledHE/labeled_he.cpp                         | 12 ++++++++++++
 .../muLabeledHE/mu_labeled_he.cpp                    | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index bf9aeac..9c87228 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -70,7 +70,9 @@ void he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -237,7 +239,9 @@ void he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
+#ifdef DEBUG
 	std::cout << "Inside sub\n";
+#endif
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -246,19 +250,27 @@ void he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
+#ifdef DEBUG
 	std::cout << "Computing inverse a\n";
+#endif
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
 	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
+#ifdef DEBUG
 	std::cout << "Adding a\n";
+#endif
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
+#ifdef DEBUG
 	std::cout << "Multiplying beta\n";
+#endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 407d44e..5321e64 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -78,7 +78,9 @@ void mu_he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -245,7 +247,9 @@ void mu_he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
+#ifdef DEBUG
 	std::cout << "Inside sub\n";
+#endif
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -254,19 +258,27 @@ void mu_he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
+#ifdef DEBUG
 	std::cout << "Computing inverse a\n";
+#endif
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
 	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
+#ifdef DEBUG
 	std::cout << "Adding a\n";
+#endif
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
+#ifdef DEBUG
 	std::cout << "Multiplying beta\n";
+#endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 }
-- 
2.43.0


From 6c19f29be305bc17c06e57729e9c6d8331ecd608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 22/32] fix: Joye-Libert and labeled encryption release their
 temporaries

---
 .../Joye_libert/joye_libert.cpp               | 27 +++++++++++++++
 .../LabeledHE/labeled_he.cpp                  | 33 +++++++++++++++++++
 .../muLabeledHE/mu_labeled_he.cpp             | 33 +++++++++++++++++++
 3 files changed, 93 insertions(+)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 7f082c1..43c7e09 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -157,6 +157,18 @@ void joye_libert_keygen(
 	std::cout << "Legendre y/p final: " << legendre_p << std::endl;
 	std::cout << "Legendre y/q final: " << legendre_q << std::endl;
 #endif
+
+	mpz_clear(q);
+	mpz_clear(p_test);
+	mpz_clear(q_test);
+	mpz_clear(pseudo_safeness_divisor);
+	mpz_clear(pseudo_test_p);
+	mpz_clear(pseudo_test_q);
+	mpz_clear(mod);
+	mpz_clear(one);
+	mpz_clear(t);
+	mpz_clear(tmp);
+	gmp_randclear(state);
 }
 
 void joye_libert_encrypt(
@@ -196,6 +208,11 @@ void joye_libert_encrypt(
 #ifdef DEBUG
 	gmp_printf("c: %Zd\n", c);
 #endif
+
+	mpz_clear(x);
+	mpz_clear(k_exp);
+	mpz_clear(tmp1);
+	mpz_clear(tmp2);
 }
 
 void joye_libert_decrypt(
@@ -255,4 +272,14 @@ void joye_libert_decrypt(
 	{
 		mpz_add(m, m, B);
 	}
+
+	mpz_clear(B);
+	mpz_clear(D);
+	mpz_clear(C);
+	mpz_clear(exp_msgsize);
+	mpz_clear(exp_y);
+	mpz_clear(neg_exp_y);
+	mpz_clear(p_1);
+	mpz_clear(z);
+	mpz_clear(exp_c);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 9c87228..0a7c5be 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -86,6 +86,10 @@ void he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	mpz_clear(beta);
+	mpz_clear(a);
+	mpz_clear(ptspace);
 }
 
 void he_eval_mult(
@@ -130,6 +134,11 @@ void he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clear(a1a2);
+	mpz_clear(a1beta2);
+	mpz_clear(a2beta1);
+	mpz_clear(ptspace);
 }
 
 void he_eval_mult_3(
@@ -193,6 +202,15 @@ void he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clear(a1a2a3);
+	mpz_clear(a1beta23);
+	mpz_clear(a2beta13);
+	mpz_clear(a3beta12);
+	mpz_clear(a12beta3);
+	mpz_clear(a13beta2);
+	mpz_clear(a23beta1);
+	mpz_clear(ptspace);
 }
 
 void he_eval_add(
@@ -215,6 +233,8 @@ void he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
 }
 
 void he_eval_add(
@@ -273,6 +293,10 @@ void he_eval_sub(
 #endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
+	mpz_clear(a_inv);
+	mpz_clear(beta_inv);
 }
 
 void he_eval_sub(
@@ -288,6 +312,8 @@ void he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	mpz_clear(c2_inv);
 }
 
 void he_eval_cmult(
@@ -309,6 +335,8 @@ void he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	mpz_clear(ptspace);
 }
 
 void he_eval_cmult(
@@ -351,6 +379,9 @@ void he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	mpz_clear(b);
+	mpz_clear(ptspace);
 }
 
 void he_decrypt(
@@ -371,4 +402,6 @@ void he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	mpz_clear(ptspace);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 5321e64..26f4d19 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -94,6 +94,10 @@ void mu_he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	mpz_clear(beta);
+	mpz_clear(a);
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_mult(
@@ -138,6 +142,11 @@ void mu_he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clear(a1a2);
+	mpz_clear(a1beta2);
+	mpz_clear(a2beta1);
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_mult_3(
@@ -201,6 +210,15 @@ void mu_he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	mpz_clear(a1a2a3);
+	mpz_clear(a1beta23);
+	mpz_clear(a2beta13);
+	mpz_clear(a3beta12);
+	mpz_clear(a12beta3);
+	mpz_clear(a13beta2);
+	mpz_clear(a23beta1);
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_add(
@@ -223,6 +241,8 @@ void mu_he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_add(
@@ -281,6 +301,10 @@ void mu_he_eval_sub(
 #endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	mpz_clear(ptspace);
+	mpz_clear(a_inv);
+	mpz_clear(beta_inv);
 }
 
 void mu_he_eval_sub(
@@ -296,6 +320,8 @@ void mu_he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	mpz_clear(c2_inv);
 }
 
 void mu_he_eval_cmult(
@@ -317,6 +343,8 @@ void mu_he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	mpz_clear(ptspace);
 }
 
 void mu_he_eval_cmult(
@@ -359,6 +387,9 @@ void mu_he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	mpz_clear(b);
+	mpz_clear(ptspace);
 }
 
 void mu_he_decrypt(
@@ -379,4 +410,6 @@ void mu_he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	mpz_clear(ptspace);
 }
-- 
2.43.0


From 7c22d7c2d6f652c99514194cd821514f76159729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 23/32] fix: ChaCha byte_swap writes its output buffer, not its
 input

---
 StreamCiphers/ChaCha/chacha.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index 2198104..dc096b9 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -22,7 +22,7 @@ void byte_swap(uint8_t *output, uint8_t *input, int size)
 		uint32_t num = ((uint32_t*)input)[i];
 		uint32_t swapped = ((num >> 24)&0xff) | ((num << 8)&0xff0000) |
 			((num >> 8)&0xff00) | ((num << 24)&0xff000000);
-		((uint32_t*)input)[i] = swapped;
+		((uint32_t*)output)[i] = swapped;
 	}
 }
 
-- 
2.43.0


From 6cfa305a790720afedcfce7d7d1ae5d567a5a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 24/32] fix: ChaCha counts packet bytes in 64 bits

Packets of 2 GiB and more were left partly or wholly unprocessed.
---
 StreamCiphers/ChaCha/chacha.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index dc096b9..60aaff7 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -77,24 +77,24 @@ void chacha_block(chacha_state *cs, uint32_t counter, uint32_t *keystream)
 void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
 {
 	// Generate sufficient keystream;
-	int n_words = std::ceil(double(size)/4);
+	uint64_t n_words = size/4 + (size % 4 != 0);
 
-	int n_iterations = std::ceil(double(n_words)/16);
+	uint64_t n_iterations = n_words/16 + (n_words % 16 != 0);
 
 	uint32_t *keystream = new uint32_t[n_iterations*16];
 
 	uint32_t counter = 1;
 
-	for (int i = 0; i < n_iterations; i++)
+	for (uint64_t i = 0; i < n_iterations; i++)
 	{
 		chacha_block(cs, counter, &(keystream[16*i]));
 		counter++;
 	}
 
-	int n_bytes = size;
+	uint64_t n_bytes = size;
 	uint32_t *w_ptr_in = (uint32_t*) input;
 	uint32_t *w_ptr_out = (uint32_t*) output;
-	int ks_index = 0;
+	uint64_t ks_index = 0;
 	while (n_bytes > 3)
 	{
 		*w_ptr_out = *w_ptr_in ^ keystream[ks_index];
@@ -104,7 +104,7 @@ void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, ui
 	input = (uint8_t*) w_ptr_in;
 	output = (uint8_t*) w_ptr_out;
 	uint8_t *byte_ks = (uint8_t*)&keystream[ks_index]; 
-	for (int i = 0; i < n_bytes; i++)
+	for (uint64_t i = 0; i < n_bytes; i++)
 	{
 		*output = *input ^ *byte_ks; byte_ks++;
 		//*output = *input ^ ((keystream[ks_index] >> (24-8*i))&0xff);
-- 
2.43.0


From 13c2dbdfc53aab62073c76279768b9400e0ecce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 25/32] fix: MD5Update handles inputs close to 4 GiB

i + 63 wrapped around and the loop ran past the input.
---
 Legacy/MD5/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Legacy/MD5/md5.cpp b/Legacy/MD5/md5.cpp
index acf7093..7bbff1f 100644
--- a/Legacy/MD5/md5.cpp
+++ b/Legacy/MD5/md5.cpp
@@ -131,7 +131,7 @@ void MD5Update(MD5_CTX *context, u8 *input, u32 inputLen)
   if (inputLen >= partLen) {
 	MD5_memcpy((u8*)&context->buffer[index], (u8*)input, partLen);
  	MD5Transform (context->state, context->buffer);
-	for (i = partLen; i + 63 < inputLen; i += 64)
+	for (i = partLen; inputLen - i >= 64; i += 64)
    		MD5Transform (context->state, &input[i]);
  	index = 0;
   }
-- 
2.43.0


From 420e47884f7836269504fb8cb1c6dfca624ba98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:29 +0000
Subject: [PATCH 26/32] fix: hex_encode output index does not overflow for 1
 GiB and more

---
 Encoders/Hex/encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Encoders/Hex/encoder.cpp b/Encoders/Hex/encoder.cpp
index 8d1c597..b9359ce 100644
--- a/Encoders/Hex/encoder.cpp
+++ b/Encoders/Hex/encoder.cpp
@@ -14,7 +14,7 @@
 void hex_encode(char* output, const uint8_t* input, int size)
 {
 	int loop;
-	int i;
+	size_t i;
 
 	i = 0;
 	loop = 0;
-- 
2.43.0


From 1af0e062b231977cca32e416800e77efd11a4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:02 +0000
Subject: [PATCH 27/32] fix: Rabbit keystream words are not written through
 pointers of another type

---
 StreamCiphers/Rabbit/rabbit.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 90acd8e..2e25e8b 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -141,17 +141,12 @@ void rabbit_extract_keystream(rabbit_state *cs, uint32_t *keystream)
 	rabbit_counter(cs);
 	rabbit_next_state(cs);
 
-	uint16_t *ks_ptr = (uint16_t*)keystream;
-
-	ks_ptr[0] = (cs->X[0]&0xffff) ^ ( (cs->X[5] >> 16) & 0xffff);
-	ks_ptr[1] = ( (cs->X[0] >> 16) & 0xffff) ^ (cs->X[3] & 0xffff);
-	ks_ptr[2] = (cs->X[2]&0xffff) ^ ( (cs->X[7] >> 16) & 0xffff);
-	ks_ptr[3] = ( (cs->X[2] >> 16) & 0xffff) ^ (cs->X[5] & 0xffff);
-	ks_ptr[4] = (cs->X[4]&0xffff) ^ ( (cs->X[1] >> 16) & 0xffff);
-	ks_ptr[5] = ( (cs->X[4] >> 16) & 0xffff) ^ (cs->X[7] & 0xffff);
-	ks_ptr[6] = (cs->X[6]&0xffff) ^ ( (cs->X[3] >> 16) & 0xffff);
-	ks_ptr[7] = ( (cs->X[6] >> 16) & 0xffff) ^ (cs->X[1] & 0xffff);
-
+	// The low half of each word comes from the low half of an even X and the
+	// high half of another, the high half from its high half and a low half.
+	keystream[0] = cs->X[0] ^ (cs->X[5] >> 16) ^ (cs->X[3] << 16);
+	keystream[1] = cs->X[2] ^ (cs->X[7] >> 16) ^ (cs->X[5] << 16);
+	keystream[2] = cs->X[4] ^ (cs->X[1] >> 16) ^ (cs->X[7] << 16);
+	keystream[3] = cs->X[6] ^ (cs->X[3] >> 16) ^ (cs->X[1] << 16);
 }
 
 void rabbit_process_packet(rabbit_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
-- 
2.43.0


From f7f7719c731d1ba218690db0b0125e6db8e5f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:02 +0000
Subject: [PATCH 28/32] fix: Rabbit squares in unsigned arithmetic

---
 StreamCiphers/Rabbit/rabbit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 006faed..be7274d 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -40,7 +40,8 @@ struct rabbit_state{
 
 inline uint32_t g(uint32_t u, uint32_t v)
 {
-	uint64_t hold = ((u+v) % WORDSIZE) * ((u+v) % WORDSIZE);
+	uint64_t sum = (uint32_t)(u+v);
+	uint64_t hold = sum * sum;
 	uint32_t LSW = hold & 0xffffffff;
 	uint32_t MSW = (hold >> 32) & 0xffffffff;
 	return (LSW ^ MSW);
-- 
2.43.0


From df55f92cd0f30d89bdf117ecd3e99c598be7e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:19 +0000
Subject: [PATCH 29/32] fix: labels differing in trailing zero bytes get
 different masks

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp  | 5 +++--
 .../muLabeledHE/mu_labeled_he.cpp                            | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 0a7c5be..408463a 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -57,9 +57,10 @@ void he_encrypt(
 	uint8_t keystream[msgsize/8];
 	std::memset(keystream, 0, msgsize/8);
 	
-	// Load label into the array
+	// Load label into the array, right-aligned so that labels differing in
+	// trailing zero bytes stay distinct
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-	mpz_export(keystream, &size, 1, 1, 0, 0, label);
+	mpz_export(keystream + msgsize/8 - size, &size, 1, 1, 0, 0, label);
 
 	// Encrypt the array
 	// The mask is a function of the seed and the label only, so start
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 26f4d19..4a6b946 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -65,9 +65,10 @@ void mu_he_encrypt(
 	uint8_t keystream[msgsize/8];
 	std::memset(keystream, 0, msgsize/8);
 
-	// Load label into the array
+	// Load label into the array, right-aligned so that labels differing in
+	// trailing zero bytes stay distinct
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-        mpz_export(keystream, &size, 1, 1, 0, 0, label);
+        mpz_export(keystream + msgsize/8 - size, &size, 1, 1, 0, 0, label);
 	
 	// Encrypt the array
 	// The mask is a function of the seed and the label only, so start
-- 
2.43.0


From e77198fc18f088bf530f2bd4b05f6fda4ca290e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:24 +0000
Subject: [PATCH 30/32] fix: the example does not decrypt a synchronous packet
 whose tag is invalid

---
 Example_AuthenticatedEncryption/example_ae.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Example_AuthenticatedEncryption/example_ae.cpp b/Example_AuthenticatedEncryption/example_ae.cpp
index d1b8194..0cc464d 100644
--- a/Example_AuthenticatedEncryption/example_ae.cpp
+++ b/Example_AuthenticatedEncryption/example_ae.cpp
@@ -131,6 +131,7 @@ int main()
 	// not valid, the ciphertext is NOT decrypted.
 	if ( !(hmac_tag_validation(&a_cs, &msg2[HC128_IV_SIZE+plaintext2.size()], msg2, HC128_IV_SIZE+plaintext2.size(), TAGSIZE)) ) {
 		std::cout << "Invalid tag!\n";
+		exit(1);
 	}
 	// Else, tag is valid. Proceed to initialize the cipher and decrypt.
 	std::cout << "Valid tag!\n";
-- 
2.43.0


From b421f3dd3f92cf44078f62e00bfc5a1ab0850b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:09:25 +0000
Subject: [PATCH 31/32] fix: Joye-Libert decrypts a ciphertext held in the
 message variable

---
 AsymmetricCryptography/Joye_libert/joye_libert.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 43c7e09..4d56b29 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -225,7 +225,6 @@ void joye_libert_decrypt(
 	// Initial operations
 	mpz_t B, D, C;
 
-	mpz_set_ui(m, 0);
 	mpz_init_set_ui(B, 1);
 	mpz_init(D);
 	mpz_init(C);
@@ -246,6 +245,9 @@ void joye_libert_decrypt(
 
 	mpz_powm(C, c, exp_y, p);
 
+	// m may be the same variable as c, so clear it only now
+	mpz_set_ui(m, 0);
+
 	mpz_t z, exp_c;
 	mpz_init(z);
 	mpz_init(exp_c);
-- 
2.43.0


From 0790d6f650bba52a4d51d085faa2cdbc13dc7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:31:30 +0000
Subject: [PATCH 32/32] fix: label masks cover message sizes that are not a
 multiple of 32 bits

---
 .../LabeledHE/labeled_he.cpp                         | 12 +++++++-----
 .../muLabeledHE/mu_labeled_he.cpp                    | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 408463a..ace8deb 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -54,22 +54,24 @@ void he_encrypt(
 	// and then load the encrypted value back into b.
 	
 	// Declare array
-	uint8_t keystream[msgsize/8];
-	std::memset(keystream, 0, msgsize/8);
+	const size_t bytes = (msgsize + CHAR_BIT-1)/CHAR_BIT;
+	uint8_t keystream[bytes];
+	std::memset(keystream, 0, bytes);
 	
 	// Load label into the array, right-aligned so that labels differing in
 	// trailing zero bytes stay distinct
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-	mpz_export(keystream + msgsize/8 - size, &size, 1, 1, 0, 0, label);
+	mpz_export(keystream + bytes - size, &size, 1, 1, 0, 0, label);
 
 	// Encrypt the array
 	// The mask is a function of the seed and the label only, so start
 	// from the seeded state for every label
 	hc128_state prf = *hc_cs;
-	hc128_process_packet(&prf, keystream, keystream, msgsize/8);
+	hc128_process_packet(&prf, keystream, keystream, bytes);
 
 	// Import it back as an mpz_t
-	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
+	mpz_import(b, bytes, 1, 1, 0, 0, keystream);
+	mpz_fdiv_r_2exp(b, b, msgsize);
 
 #ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 4a6b946..b94c860 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -62,22 +62,24 @@ void mu_he_encrypt(
 	// and then load the encrypted value back into b.
 	
 	// Declare array
-	uint8_t keystream[msgsize/8];
-	std::memset(keystream, 0, msgsize/8);
+	const size_t bytes = (msgsize + CHAR_BIT-1)/CHAR_BIT;
+	uint8_t keystream[bytes];
+	std::memset(keystream, 0, bytes);
 
 	// Load label into the array, right-aligned so that labels differing in
 	// trailing zero bytes stay distinct
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-        mpz_export(keystream + msgsize/8 - size, &size, 1, 1, 0, 0, label);
+        mpz_export(keystream + bytes - size, &size, 1, 1, 0, 0, label);
 	
 	// Encrypt the array
 	// The mask is a function of the seed and the label only, so start
 	// from the seeded state for every label
 	hc128_state prf = *hc_cs;
-	hc128_process_packet(&prf, keystream, keystream, msgsize/8);
+	hc128_process_packet(&prf, keystream, keystream, bytes);
 	
 	// Import it back as an mpz_t
-	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
+	mpz_import(b, bytes, 1, 1, 0, 0, keystream);
+	mpz_fdiv_r_2exp(b, b, msgsize);
 
 #ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
-- 
2.43.0

