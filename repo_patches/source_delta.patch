From 3b676f262b0a75b6e7bf828e1c106c050359cf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 001/128] fix: size the Skein512 and Skein1024 message buffers
 for every leaf of the tree

---
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 1472efd..7bcc807 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -68,7 +68,7 @@ Skein1024::Skein1024(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein1024), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN1024_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN1024_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN1024_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 74ebd39..623ea0e 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -68,7 +68,7 @@ Skein512::Skein512(SkeinParams &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::Skein512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(Skein::SKEIN512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * Skein::SKEIN512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(Skein::SKEIN512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
-- 
2.43.0


From f03e040d196cd8f991cf9210f38b226c20b9836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 002/128] fix: hash every leaf of the SHA2 tree modes and pad
 leaves at their own offset

---
 CEX/SHA2256.cpp | 4 ++--
 CEX/SHA2512.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index 024c3da..eeed0b9 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -183,7 +183,7 @@ void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_RATE_SIZE);
+			IntegerTools::BeUL256ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2256_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2256_DIGEST_SIZE;
 		}
 
@@ -387,7 +387,7 @@ void SHA2256::HashFinal(std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	if (Length > 56)
 	{
 		Permute(Input, InOffset, State);
-		MemoryTools::Clear(Input, 0, SHA2::SHA2256_RATE_SIZE);
+		MemoryTools::Clear(Input, InOffset, SHA2::SHA2256_RATE_SIZE);
 	}
 
 	// finalize state with counter and last compression
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index e988939..8b36c6c 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -70,7 +70,7 @@ SHA2512::SHA2512(SHA2Params &Params)
 	m_dgtState(Params.FanOut() != 0 && Params.FanOut() <= MAX_PRLDEGREE ? 
 		Params.FanOut() :
 		throw CryptoDigestException(DigestConvert::ToName(Digests::SHA2512), std::string("Constructor"), std::string("The FanOut parameter can not be zero or exceed the maximum of 64!"), ErrorCodes::IllegalOperation)),
-	m_msgBuffer(SHA2::SHA2512_RATE_SIZE),
+	m_msgBuffer(Params.FanOut() * SHA2::SHA2512_RATE_SIZE),
 	m_msgLength(0),
 	m_parallelProfile(SHA2::SHA2512_RATE_SIZE, static_cast<bool>(Params.FanOut() > 1), false, STATE_PRECACHED, false, Params.FanOut()),
 	m_treeParams(Params)
@@ -186,7 +186,7 @@ void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		// add state blocks as contiguous message input
 		for (i = 0; i < m_dgtState.size(); ++i)
 		{
-			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_RATE_SIZE);
+			IntegerTools::BeULL512ToBlock(m_dgtState[i].H, 0, m_msgBuffer, i * SHA2::SHA2512_DIGEST_SIZE);
 			m_msgLength += SHA2::SHA2512_DIGEST_SIZE;
 		}
 
-- 
2.43.0


From a13afd6d986cb9ee4be0c34d2885e31f9202fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 003/128] fix: keep every block and byte count of long messages
 in the Blake2 tree modes

---
 CEX/Blake256.cpp | 7 +++++--
 CEX/Blake512.cpp | 9 ++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index e16a007..7b33c5c 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -235,7 +235,7 @@ void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE256_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE256_RATE_SIZE));
 
 			IntegerTools::LeUL256ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE256_DIGEST_SIZE);
 		}
@@ -356,7 +356,7 @@ void Blake256::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE256_RATE_SIZE);
+	m_msgBuffer.resize(Degree > 1 ? 2 * Degree * Blake::BLAKE256_RATE_SIZE : Blake::BLAKE256_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -453,6 +453,8 @@ void Blake256::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE256_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE256_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -580,6 +582,7 @@ void Blake256::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, s
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE256_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index 067c8ef..bc324f0 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -237,7 +237,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 
 			IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, blen);
 			Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
-			m_msgLength -= Blake::BLAKE512_RATE_SIZE;
+			m_msgLength -= IntegerTools::Min(m_msgLength, static_cast<size_t>(Blake::BLAKE512_RATE_SIZE));
 			IntegerTools::LeULL512ToBlock(m_dgtState[i].H, 0, codes, i * Blake::BLAKE512_DIGEST_SIZE);
 		}
 
@@ -270,7 +270,7 @@ void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 		IntegerTools::LeIncreaseW(m_dgtState[0].T, m_dgtState[0].T, Blake::BLAKE512_RATE_SIZE);
 		Permute(m_msgBuffer, m_msgLength - Blake::BLAKE512_RATE_SIZE, m_dgtState[0]);
 		// output the code
-		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, 0);
+		IntegerTools::LeULL512ToBlock(m_dgtState[0].H, 0, Output, OutOffset);
 	}
 	else
 	{
@@ -357,7 +357,7 @@ void Blake512::ParallelMaxDegree(size_t Degree)
 	m_dgtState.clear();
 	m_dgtState.resize(Degree);
 	m_msgBuffer.clear();
-	m_msgBuffer.resize(Degree * Blake::BLAKE512_RATE_SIZE);
+	m_msgBuffer.resize(Degree > 1 ? 2 * Degree * Blake::BLAKE512_RATE_SIZE : Blake::BLAKE512_RATE_SIZE);
 
 	if (Degree > 1 && m_parallelProfile.ProcessorCount() > 1)
 	{
@@ -454,6 +454,8 @@ void Blake512::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 				{
 					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
 					Permute(m_msgBuffer, i * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
+					IntegerTools::LeIncreaseW(m_dgtState[i].T, m_dgtState[i].T, Blake::BLAKE512_RATE_SIZE);
+					Permute(m_msgBuffer, (m_treeParams.FanOut() + i) * Blake::BLAKE512_RATE_SIZE, m_dgtState[i]);
 				});
 
 				// loop in the remainder (no buffering)
@@ -581,6 +583,7 @@ void Blake512::ProcessLeaf(const std::vector<uint8_t> &Input, size_t InOffset, u
 {
 	do
 	{
+		IntegerTools::LeIncreaseW(State.T, State.T, Blake::BLAKE512_RATE_SIZE);
 		Permute(Input, InOffset, State);
 		InOffset += m_parallelProfile.ParallelMinimumSize();
 		Length -= m_parallelProfile.ParallelMinimumSize();
-- 
2.43.0


From fb136ec2c45daa4f37dbecb267eb692cbc44220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 004/128] fix: KPA-512 reports its tag size and KPA::Finalize
 honours the output offset

---
 CEX/KPA.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 018104f..c8b9f56 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -117,7 +117,7 @@ KPA::KPA(KpaModes KbaModeType)
 		0,
 		(KbaModeType == KpaModes::KPA128 ? Keccak::KECCAK128_DIGEST_SIZE :
 			KbaModeType == KpaModes::KPA256 ? Keccak::KECCAK256_DIGEST_SIZE :
-			KbaModeType == KpaModes::KPA512)),
+			KbaModeType == KpaModes::KPA512 ? Keccak::KECCAK512_DIGEST_SIZE : 0)),
 	m_kbaState(KbaModeType != KpaModes::None ? new KpaState(BlockSize(), TagSize(), KbaModeType) :
 		throw CryptoMacException(std::string("KPA"), std::string("Constructor"), std::string("The kmac mode type is not supported!"), ErrorCodes::InvalidParam))
 {
@@ -202,8 +202,10 @@ KPA::KPA(KpaModes KbaModeType)
 		size_t outlen;
 		size_t outoft;
 
-		outlen = Output.size();
-		outoft = 0;
+		const size_t TAGLEN = Output.size() - OutOffset;
+
+		outlen = TAGLEN;
+		outoft = OutOffset;
 
 		// clear unused buffer
 		if (m_kbaState->Position != 0)
@@ -234,7 +236,7 @@ KPA::KPA(KpaModes KbaModeType)
 		MemoryTools::Clear(m_kbaState->Buffer, 0, m_kbaState->Buffer.size());
 
 		// add total processed bytes and output length to padding string
-		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * Output.size());
+		bitlen = Keccak::RightEncode(prcb, 0, 8ULL * TAGLEN);
 		bitlen += Keccak::RightEncode(prcb, bitlen, 8ULL * m_kbaState->Processed);
 		// copy to buffer
 		MemoryTools::Copy(prcb, 0, m_kbaState->Buffer, 0, bitlen);
@@ -268,7 +270,7 @@ KPA::KPA(KpaModes KbaModeType)
 		m_kbaState->Position = 0;
 		m_kbaState->Processed = 0;
 
-		return Output.size();
+		return TAGLEN;
 	}
 
 	void KPA::Initialize(ISymmetricKey &Parameters)
-- 
2.43.0


From 0682b9d9bd3333670965065919e15b2a92b3dbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 005/128] fix: KMAC finalizer pads across the block boundary
 when the output length code does not fit

---
 CEX/KMAC.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index e82c5c1..2892f6b 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -164,10 +164,27 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 
 	for (i = 0; i < blen; i++)
 	{
-		m_kmacState->Buffer[m_kmacState->Position + i] = buf[i];
+		if (m_kmacState->Position == m_kmacState->Rate)
+		{
+			// the output length code has crossed the block boundary
+			Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+			Permute(m_kmacState);
+			MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+			m_kmacState->Position = 0;
+		}
+
+		m_kmacState->Buffer[m_kmacState->Position] = buf[i];
+		++m_kmacState->Position;
+	}
+
+	if (m_kmacState->Position == m_kmacState->Rate)
+	{
+		Keccak::FastAbsorb(m_kmacState->Buffer, 0, m_kmacState->Rate, m_kmacState->State);
+		Permute(m_kmacState);
+		MemoryTools::Clear(m_kmacState->Buffer, 0, m_kmacState->Buffer.size());
+		m_kmacState->Position = 0;
 	}
 
-	m_kmacState->Position += blen;
 	m_kmacState->Buffer[m_kmacState->Position] = Keccak::KECCAK_KMAC_DOMAIN;
 	m_kmacState->Buffer[m_kmacState->Rate - 1] |= 128;
 
-- 
2.43.0


From 717ad87870bd6750b91fe955bbf3d85cfcbaf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 006/128] fix: Keccak Customize and MACP1600 carry length codes
 across the block boundary

---
 CEX/Keccak.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 677892d..49c1240 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -393,6 +393,15 @@ public:
 
 		offset += LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
 
+		if (offset > Rate)
+		{
+			// the length encoding has crossed the block boundary; absorb the full block, and keep the remainder
+			FastAbsorb(pad, 0, Rate, State);
+			Permute(State, Rounds);
+			offset -= Rate;
+			MemoryTools::Copy(pad, Rate, pad, 0, offset);
+		}
+
 		if (Customization.size() != 0)
 		{
 			for (i = 0; i < Customization.size(); ++i)
@@ -611,16 +620,28 @@ public:
 			Offset += Rate;
 		}
 
+		MemoryTools::Clear(pad, 0, pad.size());
+
 		if (Length != 0)
 		{
 			MemoryTools::Copy(Message, Offset, pad, 0, Length);
-			MemoryTools::Clear(pad, Length, pad.size() - Length);
 		}
 
 		// add the remaining message bytes to the state and finalize
 		blen = RightEncode(pad, Length, static_cast<uint64_t>(Output.size()) * sizeof(uint64_t));
 
 		Length += blen;
+
+		if (Length >= Rate)
+		{
+			// the output length code has filled the block; absorb it, and keep the remainder
+			FastAbsorb(pad, 0, Rate, state);
+			Permute(state, Rounds);
+			Length -= Rate;
+			MemoryTools::Copy(pad, Rate, pad, 0, Length);
+			MemoryTools::Clear(pad, Length, pad.size() - Length);
+		}
+
 		pad[Length] = KECCAK_KMAC_DOMAIN;
 		pad[Rate - 1] |= 128;
 		FastAbsorb(pad, 0, Rate, state);
-- 
2.43.0


From 3d0e9c449c1769b094923dea3b406d8b01db72f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 007/128] fix: RHX and SHX advertise and enforce the documented
 key sizes

---
 CEX/RHX.cpp | 7 ++-----
 CEX/SHX.cpp | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/CEX/RHX.cpp b/CEX/RHX.cpp
index 81aa40e..e91d9dd 100644
--- a/CEX/RHX.cpp
+++ b/CEX/RHX.cpp
@@ -24,11 +24,7 @@ public:
 #endif
 
 	SecureVector<uint8_t> Custom = { 0 };
-	std::vector<SymmetricKeySize> LegalKeySizes{
-		SymmetricKeySize(IK128_SIZE, BLOCK_SIZE, INFO_SIZE),
-		SymmetricKeySize(IK192_SIZE, BLOCK_SIZE, INFO_SIZE),
-		SymmetricKeySize(IK256_SIZE, BLOCK_SIZE, INFO_SIZE),
-		SymmetricKeySize(IK512_SIZE, BLOCK_SIZE, INFO_SIZE) };
+	std::vector<SymmetricKeySize> LegalKeySizes;
 	size_t Rounds = 0;
 	BlockCipherExtensions Extension;
 	bool Destroyed;
@@ -37,6 +33,7 @@ public:
 
 	RhxState(BlockCipherExtensions CipherExtension, bool IsDestroyed)
 		:
+		LegalKeySizes(CalculateKeySizes(CipherExtension)),
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
diff --git a/CEX/SHX.cpp b/CEX/SHX.cpp
index 4cc145f..6748acc 100644
--- a/CEX/SHX.cpp
+++ b/CEX/SHX.cpp
@@ -24,11 +24,7 @@ public:
 
 	SecureVector<uint8_t> Custom = { 0 };
 	SecureVector<uint32_t> RoundKeys = { 0 };
-	std::vector<SymmetricKeySize> LegalKeySizes{
-		SymmetricKeySize(IK128_SIZE, BLOCK_SIZE, INFO_SIZE),
-		SymmetricKeySize(IK192_SIZE, BLOCK_SIZE, INFO_SIZE),
-		SymmetricKeySize(IK256_SIZE, BLOCK_SIZE, INFO_SIZE),
-		SymmetricKeySize(IK512_SIZE, BLOCK_SIZE, INFO_SIZE) };
+	std::vector<SymmetricKeySize> LegalKeySizes;
 	size_t Rounds = 0;
 	BlockCipherExtensions Extension;
 	bool Destroyed;
@@ -37,6 +33,7 @@ public:
 
 	ShxState(BlockCipherExtensions CipherExtension, bool IsDestroyed)
 		:
+		LegalKeySizes(CalculateKeySizes(CipherExtension)),
 		Extension(CipherExtension),
 		Destroyed(IsDestroyed)
 	{
-- 
2.43.0


From 15316a514f53b50ea6b12beaeebffb387c12ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 008/128] fix: OFB Initialize refuses a vector that is not one
 block

---
 CEX/OFB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/OFB.cpp b/CEX/OFB.cpp
index 792bd38..2f72ea2 100644
--- a/CEX/OFB.cpp
+++ b/CEX/OFB.cpp
@@ -184,7 +184,7 @@ void OFB::EncryptBlock(const std::vector<uint8_t> &Input, size_t InOffset, std::
 
 void OFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize(), Parameters.KeySizes().IVSize()))
+	if (Parameters.KeySizes().IVSize() != BLOCK_SIZE || !SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize(), Parameters.KeySizes().IVSize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a legal key-size, and the nonce must equal in size to the block ciphers block-size!"), ErrorCodes::InvalidKey);
 	}
-- 
2.43.0


From 1fabae3f9353a68ff0aa97f6d61cf1a320d0ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 009/128] fix: counter increase keeps the carry when the added
 byte is 0xFF

---
 CEX/IntegerTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 425d719..dd58f62 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -1022,7 +1022,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1071,7 +1071,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1119,7 +1119,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1168,7 +1168,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((MAXPOS - lctr) < cinc.size()) ? cinc[MAXPOS - lctr] : 0x00;
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 		}
 	}
@@ -1960,7 +1960,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2008,7 +2008,7 @@ public:
 			odst = Output[lctr];
 			osrc = (lctr < cinc.size() ? cinc[lctr] : 0x00);
 			ndst = static_cast<uint8_t>(odst + osrc + carry);
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2054,7 +2054,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
@@ -2101,7 +2101,7 @@ public:
 			odst = Output[lctr];
 			osrc = ((lctr - OutOffset < cinc.size()) ? cinc[lctr - OutOffset] : 0x00);
 			ndst = odst + osrc + carry;
-			carry = ndst < odst ? 1 : 0;
+			carry = (ndst < odst || (carry == 1 && ndst == odst)) ? 1 : 0;
 			Output[lctr] = ndst;
 			++lctr;
 		}
-- 
2.43.0


From f3fe197ed6ab710f37848ca398301e0554e74e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 010/128] fix: HKDF output limit, offset output, and
 per-initialization info and salt

---
 CEX/HKDF.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index f367503..0c7b88f 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -125,8 +125,12 @@ void HKDF::Extract(const std::vector<uint8_t> &Key, const std::vector<uint8_t> &
 {
 	if (Salt.size() != 0)
 	{
-		SymmetricKey kps(Salt);
+		// zero padding a short salt up to the HMAC minimum key size does not change the function
+		std::vector<uint8_t> tmps(IntegerTools::Max(Salt.size(), m_hkdfGenerator->MinimumKeySize()), 0x00);
+		MemoryTools::Copy(Salt, 0, tmps, 0, Salt.size());
+		SymmetricKey kps(tmps);
 		m_hkdfGenerator->Initialize(kps);
+		MemoryTools::Clear(tmps, 0, tmps.size());
 	}
 	else
 	{
@@ -142,8 +146,12 @@ void HKDF::Extract(const SecureVector<uint8_t> &Key, const SecureVector<uint8_t>
 {
 	if (Salt.size() != 0)
 	{
-		SymmetricKey kps(Salt);
+		// zero padding a short salt up to the HMAC minimum key size does not change the function
+		std::vector<uint8_t> tmps(IntegerTools::Max(Salt.size(), m_hkdfGenerator->MinimumKeySize()), 0x00);
+		MemoryTools::Copy(Salt, 0, tmps, 0, Salt.size());
+		SymmetricKey kps(tmps);
 		m_hkdfGenerator->Initialize(kps);
+		MemoryTools::Clear(tmps, 0, tmps.size());
 	}
 	else
 	{
@@ -161,7 +169,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -175,7 +183,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Output.size() / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Output.size() + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -189,7 +197,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -207,7 +215,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + (Length / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
+	if (m_hkdfState->State[m_hkdfGenerator->TagSize()] + ((Length + m_hkdfGenerator->TagSize() - 1) / m_hkdfGenerator->TagSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -231,9 +239,11 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 		Reset();
 	}
 
+	// discard the info string of an earlier initialization
+	m_hkdfState->Info.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_hkdfState->Info.resize(Parameters.KeySizes().InfoSize());
 		MemoryTools::Copy(Parameters.Info(), 0, m_hkdfState->Info, 0, m_hkdfState->Info.size());
 	}
 
@@ -303,7 +313,7 @@ void HKDF::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void HKDF::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<HkdfState> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
-- 
2.43.0


From 8430af31ec6306e64c01703cee8aa54df2d6fd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 011/128] fix: KDF2 offset output, and per-initialization salt
 and info

---
 CEX/KDF2.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index adb3217..ad7b332 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -222,7 +222,7 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 		m_kdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
 		// add nonce param to salt
-		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		MemoryTools::Copy(Parameters.IV(), 0, m_kdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 
 		// add info as extension of salt
 		if (Parameters.KeySizes().InfoSize() > 0)
@@ -232,6 +232,10 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 	}
 	else
 	{
+		// discard the key and salt of an earlier initialization
+		m_kdf2State->State.clear();
+		m_kdf2State->Salt.clear();
+
 		// equal or less than a full block, interpret as ISO18033
 		if (Parameters.KeySizes().KeySize() <= m_kdf2Generator->BlockSize())
 		{
@@ -246,14 +250,14 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 			MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2Generator->BlockSize());
 			m_kdf2State->Salt.resize(Parameters.KeySizes().KeySize() - m_kdf2Generator->BlockSize());
 			MemoryTools::Copy(Parameters.Key(), m_kdf2Generator->BlockSize(), m_kdf2State->Salt, 0, m_kdf2State->Salt.size());
+		}
 
-			// add info as extension of salt
-			if (Parameters.KeySizes().InfoSize() > 0)
-			{
-				const size_t SLTLEN = m_kdf2State->Salt.size();
-				m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
-				MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
-			}
+		// add info as extension of salt
+		if (Parameters.KeySizes().InfoSize() > 0)
+		{
+			const size_t SLTLEN = m_kdf2State->Salt.size();
+			m_kdf2State->Salt.resize(SLTLEN + Parameters.KeySizes().InfoSize());
+			MemoryTools::Copy(Parameters.Info(), 0, m_kdf2State->Salt, SLTLEN, Parameters.KeySizes().InfoSize());
 		}
 	}
 
@@ -301,7 +305,7 @@ void KDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length,
 void KDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Kdf2State> &State, std::unique_ptr<IDigest> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, Length);
 }
 
-- 
2.43.0


From 03a544970ecb74c84d300f6a3170cdaeed85a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 012/128] fix: PBKDF2 offset output, per-initialization salt,
 and short passwords

---
 CEX/PBKDF2.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index 3f9c73b..f176324 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -217,9 +217,12 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		Reset();
 	}
 
-	// add the key to the state
-	m_pbkdf2State->State.resize(Parameters.KeySizes().KeySize());
-	MemoryTools::Copy(Parameters.Key(), 0, m_pbkdf2State->State, 0, m_pbkdf2State->State.size());
+	// add the key to the state; zero padding a short key up to the HMAC minimum key size does not change the function
+	m_pbkdf2State->State.clear();
+	m_pbkdf2State->State.resize(IntegerTools::Max(Parameters.KeySizes().KeySize(), m_pbkdf2Generator->MinimumKeySize()), 0x00);
+	MemoryTools::Copy(Parameters.Key(), 0, m_pbkdf2State->State, 0, Parameters.KeySizes().KeySize());
+	// discard the salt of an earlier initialization
+	m_pbkdf2State->Salt.clear();
 
 	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0)
 	{
@@ -234,7 +237,7 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 		// add the nonce param
 		if (Parameters.KeySizes().IVSize() != 0)
 		{
-			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, m_pbkdf2State->Salt.size());
+			MemoryTools::Copy(Parameters.IV(), 0, m_pbkdf2State->Salt, 0, Parameters.KeySizes().IVSize());
 		}
 
 		// add info as extension of salt
@@ -294,7 +297,7 @@ void PBKDF2::Expand(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 void PBKDF2::Expand(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length, std::unique_ptr<Pbkdf2State> &State, std::unique_ptr<HMAC> &Generator)
 {
 	std::vector<uint8_t> tmps(Length);
-	Expand(tmps, OutOffset, Length, State, Generator);
+	Expand(tmps, 0, Length, State, Generator);
 	SecureMove(tmps, 0, Output, OutOffset, tmps.size());
 }
 
-- 
2.43.0


From 7b56ffd0404c2ad3b4b3da528ae356155dc874f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 013/128] fix: SCBKDF memory cost is measured on the cache it
 grows

---
 CEX/SCBKDF.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index a15e6e0..6303c1b 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -211,7 +211,7 @@ void SCBKDF::Expand(std::unique_ptr<ScbkdfState> &State)
 		Keccak::Absorb(State->Cache, 0, State->Cache.size(), State->Rate, State->Domain, State->State);
 
 		// increase the cache size up to memory cost
-		if (State->State.size() < State->MemoryCost * MB1)
+		if (State->Cache.size() < State->MemoryCost * MB1)
 		{
 			const size_t CLEN = State->Cache.size();
 			State->Cache.resize(CLEN + State->Rate);
-- 
2.43.0


From e216cf8e3b8e87f3bb9d64d84282229e7ccbb16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 014/128] fix: RCS and RWS parallel processing steps the
 128-bit counter like the sequential path

---
 CEX/RCS.cpp | 2 +-
 CEX/RWS.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 3444fb1..e19a222 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -833,7 +833,7 @@ void RCS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rcsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 1724c09..7ea2707 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -765,7 +765,7 @@ void RWS::ProcessParallel(const std::vector<uint8_t> &Input, size_t InOffset, st
 		// thread level counter
 		std::vector<uint8_t> thdc(BLOCK_SIZE);
 		// offset counter by chunk size / block size  
-		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, static_cast<uint32_t>(CTRLEN * i));
+		IntegerTools::LeIncrease8(m_rwsState->Nonce, thdc, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 		const size_t STMPOS = i * CNKLEN;
 		// generate random at output offset
 		this->Generate(Output, OutOffset + STMPOS, CNKLEN, thdc);
-- 
2.43.0


From a657a4330be5545a8d6c7a70c5e9f7568a029fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:44 +0000
Subject: [PATCH 015/128] fix: ChaChaP20 and CSX512 generate the tail of a
 parallel transform at the output offset

---
 CEX/CSX512.cpp    | 4 ++--
 CEX/ChaChaP20.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/CSX512.cpp b/CEX/CSX512.cpp
index 1b8d477..3e92d06 100644
--- a/CEX/CSX512.cpp
+++ b/CEX/CSX512.cpp
@@ -685,8 +685,8 @@ void CSX512::Process(const std::vector<uint8_t> &Input, size_t InOffset, std::ve
 		// last block processing
 		if (RNDLEN < PRCLEN)
 		{
-			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx512State, Output, RNDLEN, m_csx512State->Nonce, FNLLEN);
+			const size_t FNLLEN = PRCLEN - RNDLEN;
+			Generate(m_csx512State, Output, OutOffset + RNDLEN, m_csx512State->Nonce, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
diff --git a/CEX/ChaChaP20.cpp b/CEX/ChaChaP20.cpp
index a89e941..2ef56a4 100644
--- a/CEX/ChaChaP20.cpp
+++ b/CEX/ChaChaP20.cpp
@@ -747,8 +747,8 @@ void ChaChaP20::Process(const std::vector<uint8_t> &Input, size_t InOffset, std:
 		// last block processing
 		if (RNDLEN < PRCLEN)
 		{
-			const size_t FNLLEN = PRCLEN % RNDLEN;
-			Generate(m_csx256State, m_csx256State->Nonce, Output, RNDLEN, FNLLEN);
+			const size_t FNLLEN = PRCLEN - RNDLEN;
+			Generate(m_csx256State, m_csx256State->Nonce, Output, OutOffset + RNDLEN, FNLLEN);
 
 			for (size_t i = 0; i < FNLLEN; ++i)
 			{
-- 
2.43.0


From e526982e1647a61d349070625ab5496d78bc5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:45 +0000
Subject: [PATCH 016/128] fix: RCS and RWS forget an earlier key's
 customization when initialized without one

---
 CEX/RCS.cpp | 3 ++-
 CEX/RWS.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index e19a222..7e21590 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -443,9 +443,10 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	}
 
 	// store the customization string -v1.0d
+	m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rcsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rcsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 7ea2707..216f9e5 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -408,9 +408,10 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	m_rwsState->Counter = 0;
 
 	// store the customization string
+	m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
+
 	if (Parameters.KeySizes().InfoSize() != 0)
 	{
-		m_rwsState->Custom.resize(Parameters.KeySizes().InfoSize());
 		// copy the user defined string to the customization parameter
 		MemoryTools::Copy(Parameters.Info(), 0, m_rwsState->Custom, 0, Parameters.KeySizes().InfoSize());
 	}
-- 
2.43.0


From e4ca681f60d4da2151db9c78fdf704bf371c27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:45 +0000
Subject: [PATCH 017/128] fix: ChaChaP20 and CSX512 accept the serialized state
 of an unauthenticated cipher

---
 CEX/CSX512.h    | 2 +-
 CEX/ChaChaP20.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSX512.h b/CEX/CSX512.h
index 1604bd0..76b02e6 100644
--- a/CEX/CSX512.h
+++ b/CEX/CSX512.h
@@ -137,7 +137,7 @@ private:
 #endif
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 243;
+	static const size_t STATE_THRESHOLD = 193;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 64;
 
diff --git a/CEX/ChaChaP20.h b/CEX/ChaChaP20.h
index 2069422..913f236 100644
--- a/CEX/ChaChaP20.h
+++ b/CEX/ChaChaP20.h
@@ -136,7 +136,7 @@ private:
 	static const size_t NONCE_SIZE = 2;
 	static const size_t ROUND_COUNT = 20;
 	static const size_t STATE_PRECACHED = 2048;
-	static const size_t STATE_THRESHOLD = 155;
+	static const size_t STATE_THRESHOLD = 97;
 	static const std::vector<uint8_t> SIGMA_INFO;
 	static const size_t STATE_SIZE = 14;
 	static const size_t TAG_SIZE = 32;
-- 
2.43.0


From 221d72931b31c74202699d162783dd94fe8af6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 018/128] fix: HBA associated data is checked against the bytes
 behind its offset

---
 CEX/HBA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 2af782f..9f2f974 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -344,7 +344,7 @@ void HBA::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -368,7 +368,7 @@ void HBA::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
-	if (Length - Offset > Input.size())
+	if (Offset > Input.size() || Length > Input.size() - Offset)
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 28b332cb2c90d7dfd27deb2b059dfe5050154f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:55 +0000
Subject: [PATCH 019/128] fix: GCM Initialize drops the associated data of an
 unfinished message

---
 CEX/GCM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index d0ec3e5..716fe1c 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -185,6 +185,7 @@ const size_t GCM::TagSize()
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
+	m_gcmState->AAD.resize(0);
 	m_macAuthenticator->Reset();
 	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
 	m_gcmState->Counter = 0;
-- 
2.43.0


From 9bb150e168a554240f9d5e5a674ab225e55c9729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 020/128] fix: GCM 12-byte nonce does not keep bytes of an
 earlier, unused nonce

---
 CEX/GCM.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 716fe1c..1504d8d 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -254,6 +254,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	// create the CTR mode nonce
 	if (m_gcmState->Buffer.size() == MIN_TAGSIZE)
 	{
+		MemoryTools::Clear(m_gcmState->Nonce, 0, m_gcmState->Nonce.size());
 		MemoryTools::Copy(m_gcmState->Buffer, 0, m_gcmState->Nonce, 0, m_gcmState->Buffer.size());
 		m_gcmState->Nonce[BLOCK_SIZE - 1] = 0x01;
 	}
-- 
2.43.0


From 6589323a5e4a860c5dcc825791bfe5d4cba94301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 021/128] fix: GCM keeps its hash key and refuses a repeated
 nonce when only the nonce is renewed

---
 CEX/GCM.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 1504d8d..cc6593d 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -186,8 +186,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
 	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
 	m_gcmState->AAD.resize(0);
-	m_macAuthenticator->Reset();
-	MemoryTools::Clear(m_gcmState->Buffer, 0, m_gcmState->Buffer.size());
+	m_macAuthenticator->Clear();
 	m_gcmState->Counter = 0;
 
 	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
@@ -211,7 +210,7 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().KeySize() == 0)
 	{
-		if (Parameters.SecureIV() == m_gcmState->Buffer)
+		if (Parameters.SecureIV() == m_gcmState->Buffer || Parameters.SecureIV() == SecureVector<uint8_t>(Parameters.KeySizes().IVSize(), 0x00))
 		{
 			throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("The nonce can not be zeroised or repeating!"), ErrorCodes::InvalidNonce);
 		}
-- 
2.43.0


From 3846f043e81e33e917d9b3d4ddbb1c6eadb67580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 022/128] fix: PKCS7 and X923 check the first byte of a block
 that is all padding

---
 CEX/PKCS7.cpp | 8 ++++----
 CEX/X923.cpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index e8f8cbb..7339ffb 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -51,7 +51,7 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
@@ -59,8 +59,8 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input)
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -81,7 +81,7 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	size_t inp;
 	size_t pos;
 
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN;
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
@@ -89,8 +89,8 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsEqual(Input[ctr], FNLPAD)) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 619c5a7..117649b 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -55,12 +55,12 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input)
 	inp = 0;
 	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != 0)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
@@ -84,12 +84,12 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	inp = 0;
 	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
 	pos = BLKLEN - FNLPAD;
-	ctr = BLKLEN - 2;
+	ctr = BLKLEN - 1;
 
 	while (ctr != Offset)
 	{
-		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 		--ctr;
+		inp |= (~IntegerTools::IsZero(Input[ctr])) & IntegerTools::ExpandMask<uint8_t>(ctr >= pos);
 	}
 
 	IntegerTools::ConditionalCopy(inp, &pos, &BLKLEN, &pos, 1);
-- 
2.43.0


From d063bc7d4899aad5aeba7f9ce3a425b45ab66ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 023/128] fix: padding that would start before the block's
 offset is not valid

---
 CEX/ESP.cpp   | 2 +-
 CEX/PKCS7.cpp | 2 +-
 CEX/X923.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/ESP.cpp b/CEX/ESP.cpp
index c51513d..58b907a 100644
--- a/CEX/ESP.cpp
+++ b/CEX/ESP.cpp
@@ -82,7 +82,7 @@ size_t ESP::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, siz
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
diff --git a/CEX/PKCS7.cpp b/CEX/PKCS7.cpp
index 7339ffb..2e44e48 100644
--- a/CEX/PKCS7.cpp
+++ b/CEX/PKCS7.cpp
@@ -85,7 +85,7 @@ size_t PKCS7::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, s
 	inp = 0;
 	pos = BLKLEN - FNLPAD;
 
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 
 	while (ctr != Offset)
 	{
diff --git a/CEX/X923.cpp b/CEX/X923.cpp
index 117649b..e448f98 100644
--- a/CEX/X923.cpp
+++ b/CEX/X923.cpp
@@ -82,7 +82,7 @@ size_t X923::GetBlockLength(const std::vector<uint8_t> &Input, size_t Offset, si
 	size_t pos;
 
 	inp = 0;
-	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN);
+	inp |= IntegerTools::ExpandMask<size_t>(FNLPAD > BLKLEN - Offset);
 	pos = BLKLEN - FNLPAD;
 	ctr = BLKLEN - 1;
 
-- 
2.43.0


From 7f99c084bc4ff2900f9842ee0070dc03e091cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 024/128] fix: ZeroOne reports its own enumeration

---
 CEX/ZeroOne.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/ZeroOne.cpp b/CEX/ZeroOne.cpp
index dcc1d6f..464e29c 100644
--- a/CEX/ZeroOne.cpp
+++ b/CEX/ZeroOne.cpp
@@ -17,7 +17,7 @@ ZeroOne::~ZeroOne()
 
 const PaddingModes ZeroOne::Enumeral() 
 { 
-	return PaddingModes::None; 
+	return PaddingModes::ZeroOne; 
 }
 
 const std::string ZeroOne::Name() 
-- 
2.43.0


From cc1ffdc7ab5a49969ed3847080930eece7d65fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 025/128] fix: BCG parallel generation offsets the
 little-endian counter

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index ec9824b..db394a5 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -557,7 +557,7 @@ void BCG::Process(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length
 			// thread level counter
 			SecureVector<uint8_t> thdCtr(BLOCK_SIZE);
 			// offset counter by chunk size / block size  
-			IntegerTools::BeIncrease8(m_bcgState->Nonce, thdCtr, static_cast<uint32_t>(CTRLEN * i));
+			IntegerTools::LeIncrease8(m_bcgState->Nonce, thdCtr, 0, 16, static_cast<uint32_t>(CTRLEN * i));
 			// generate random at output offset
 			this->Transform(Output, OutOffset + (i * CNKLEN), CNKLEN, thdCtr);
 			// store last counter
-- 
2.43.0


From 711d79417d2c27eb2b045a0b4eae16f0b944557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 026/128] fix: BCG clears the reseed count when a new key is
 loaded, and keeps the provider ownership flag

---
 CEX/BCG.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index db394a5..f4a56c4 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -80,8 +80,8 @@ public:
 
 		Counter = 0;
 		KeySize = 0;
+		Reseed = 0;
 		Rounds = 0;
-		IsDestroyed = false;
 		IsInitialized = false;
 	}
 };
@@ -373,7 +373,10 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 
 	// reinitialize the generator with the nonce and distribution codes preserved
 	SymmetricKey kp(tmpk, m_bcgState->Nonce, m_bcgState->Custom);
+	const size_t RSDCTR = m_bcgState->Reseed;
 	Initialize(kp);
+	// the reseed count is preserved through the update
+	m_bcgState->Reseed = RSDCTR;
 	// reset the reseed counter
 	m_bcgState->Counter = 0;
 }
-- 
2.43.0


From ccb5e2eebfd320efd0aceed84c7b534e927ca3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 027/128] fix: CSG-SHAKE512 constructed with a provider
 instance uses the 512-bit rate and key sizes

---
 CEX/CSG.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index be56a73..60bdf61 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -134,27 +134,27 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				0),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				0,
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512)),
+					Keccak::KECCAK512_DIGEST_SIZE)),
 			SymmetricKeySize(
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512),
+					Keccak::KECCAK512_DIGEST_SIZE),
 				(ShakeModeType == ShakeModes::SHAKE128 ? Keccak::KECCAK128_DIGEST_SIZE :
 					ShakeModeType == ShakeModes::SHAKE256 ? Keccak::KECCAK256_DIGEST_SIZE :
-					ShakeModeType == ShakeModes::SHAKE512))},
+					Keccak::KECCAK512_DIGEST_SIZE))},
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
@@ -164,7 +164,7 @@ CSG::CSG(ShakeModes ShakeModeType, IProvider* Provider, bool Parallel)
 			ShakeModeType,
 			((ShakeModeType == ShakeModes::SHAKE128) ? Keccak::KECCAK128_RATE_SIZE :
 				(ShakeModeType == ShakeModes::SHAKE256) ? Keccak::KECCAK256_RATE_SIZE :
-				(ShakeModeType == ShakeModes::SHAKE512)), 
+				Keccak::KECCAK512_RATE_SIZE), 
 			DEF_RESEED, 
 			false))
 {
-- 
2.43.0


From 33818869666cb18b3d78328cc2126bbb41e888e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 028/128] fix: CSG Customize carries the length code across the
 block boundary

---
 CEX/CSG.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 60bdf61..ec631e1 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -449,6 +449,15 @@ void CSG::Customize(const SecureVector<uint8_t> &Customization, const SecureVect
 
 	offset += Keccak::LeftEncode(pad, offset, static_cast<uint64_t>(Customization.size()) * 8);
 
+	if (offset > State->Rate)
+	{
+		// the length encoding has crossed the block boundary; absorb the full block, and keep the remainder
+		Keccak::FastAbsorb(pad, 0, State->Rate, State->State[State->Index]);
+		Permute(State);
+		offset -= State->Rate;
+		MemoryTools::Copy(pad, State->Rate, pad, 0, offset);
+	}
+
 	if (Customization.size() != 0)
 	{
 		for (i = 0; i < Customization.size(); ++i)
-- 
2.43.0


From 2a6329a9af6a09a8220824fbab8ad16225e2d2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:43 +0000
Subject: [PATCH 029/128] fix: HCG constructed with a digest instance accepts
 SHA2512 and uses its own name

---
 CEX/HCG.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 9e11f7f..0ef97ce 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -106,7 +106,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 	:
 	DrbgBase(
 		Drbgs::HCG,
-		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::BCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
+		(Digest != nullptr ? DrbgConvert::ToName(Drbgs::HCG) + std::string("-") + DigestConvert::ToName(Digest->Enumeral()) :
 			throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest can not be null!"), ErrorCodes::IllegalOperation)),
 		Digest != nullptr ? 
 			(Digest->Enumeral() == Digests::SHA2256 ?
@@ -122,7 +122,7 @@ HCG::HCG(IDigest* Digest, IProvider* Provider)
 		MAX_OUTPUT,
 		MAX_REQUEST,
 		MAX_THRESHOLD),
-	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() != Digests::SHA2512) ? 
+	m_hcgGenerator(Digest != nullptr && (Digest->Enumeral() == Digests::SHA2256 || Digest->Enumeral() == Digests::SHA2512) ? 
 		new HMAC(Digest) :
 		throw CryptoGeneratorException(DrbgConvert::ToName(Drbgs::HCG), std::string("Constructor"), std::string("The digest type is not supported!"), ErrorCodes::IllegalOperation)),
 	m_hcgProvider(Provider),
-- 
2.43.0


From 33c5305c5cfe3cb35d3751b802627b0dc72e56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:02 +0000
Subject: [PATCH 030/128] fix: SecureRandom ranges that exceed the positive
 half of the type

---
 CEX/SecureRandom.cpp | 110 +++++++++++++++++++++++++++----------------
 1 file changed, 70 insertions(+), 40 deletions(-)

diff --git a/CEX/SecureRandom.cpp b/CEX/SecureRandom.cpp
index 6c0e03c..97add02 100644
--- a/CEX/SecureRandom.cpp
+++ b/CEX/SecureRandom.cpp
@@ -264,19 +264,24 @@ int16_t SecureRandom::NextInt16(int16_t Maximum, int16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int16_t SMPTHR = (Maximum - Minimum + 1);
-	const int16_t SMPMAX = static_cast<int16_t>(std::numeric_limits<int16_t>::max() - (std::numeric_limits<int16_t>::max() % SMPTHR));
-	int16_t x;
-	int16_t ret;
+	// the number of values in the range, zero if it is the entire range of the type
+	const uint16_t SMPTHR = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
 
-	do
+	if (SMPTHR == 0)
 	{
-		x = NextInt16();
-		ret = x % SMPTHR;
+		return NextInt16();
 	}
-	while (x >= SMPMAX || ret < 0);
 
-	return Minimum + ret;
+	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
+	uint16_t x;
+
+	do
+	{
+		x = NextUInt16();
+	} 
+	while (x >= SMPMAX);
+
+	return static_cast<int16_t>(static_cast<uint16_t>(Minimum) + (x % SMPTHR));
 }
 
 uint16_t SecureRandom::NextUInt16()
@@ -319,19 +324,24 @@ uint16_t SecureRandom::NextUInt16(uint16_t Maximum, uint16_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt16"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint16_t SMPTHR = (Maximum - Minimum + 1);
+	// the number of values in the range, zero if it is the entire range of the type
+	const uint16_t SMPTHR = static_cast<uint16_t>(static_cast<uint16_t>(Maximum) - static_cast<uint16_t>(Minimum) + 1);
+
+	if (SMPTHR == 0)
+	{
+		return NextUInt16();
+	}
+
 	const uint16_t SMPMAX = static_cast<uint16_t>(std::numeric_limits<uint16_t>::max() - (std::numeric_limits<uint16_t>::max() % SMPTHR));
 	uint16_t x;
-	uint16_t ret;
 
 	do
 	{
 		x = NextUInt16();
-		ret = x % SMPTHR;
 	} 
 	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<uint16_t>(static_cast<uint16_t>(Minimum) + (x % SMPTHR));
 }
 
 int32_t SecureRandom::NextInt32()
@@ -374,19 +384,24 @@ int32_t SecureRandom::NextInt32(int32_t Maximum, int32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int32_t SMPTHR = (Maximum - Minimum + 1);
-	const int32_t SMPMAX = static_cast<int32_t>(std::numeric_limits<int32_t>::max() - (std::numeric_limits<int32_t>::max() % SMPTHR));
-	int32_t x;
-	int32_t ret;
+	// the number of values in the range, zero if it is the entire range of the type
+	const uint32_t SMPTHR = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+
+	if (SMPTHR == 0)
+	{
+		return NextInt32();
+	}
+
+	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
+	uint32_t x;
 
 	do
 	{
-		x = NextInt32();
-		ret = x % SMPTHR;
+		x = NextUInt32();
 	} 
-	while (x >= SMPMAX || ret < 0);
+	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<int32_t>(static_cast<uint32_t>(Minimum) + (x % SMPTHR));
 }
 
 uint32_t SecureRandom::NextUInt32()
@@ -429,19 +444,24 @@ uint32_t SecureRandom::NextUInt32(uint32_t Maximum, uint32_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt32"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint32_t SMPTHR = (Maximum - Minimum + 1);
+	// the number of values in the range, zero if it is the entire range of the type
+	const uint32_t SMPTHR = static_cast<uint32_t>(static_cast<uint32_t>(Maximum) - static_cast<uint32_t>(Minimum) + 1);
+
+	if (SMPTHR == 0)
+	{
+		return NextUInt32();
+	}
+
 	const uint32_t SMPMAX = static_cast<uint32_t>(std::numeric_limits<uint32_t>::max() - (std::numeric_limits<uint32_t>::max() % SMPTHR));
 	uint32_t x;
-	uint32_t ret;
 
 	do
 	{
 		x = NextUInt32();
-		ret = x % SMPTHR;
-	}
+	} 
 	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<uint32_t>(static_cast<uint32_t>(Minimum) + (x % SMPTHR));
 }
 
 int64_t SecureRandom::NextInt64()
@@ -484,19 +504,24 @@ int64_t SecureRandom::NextInt64(int64_t Maximum, int64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const int64_t SMPTHR = (Maximum - Minimum + 1);
-	const int64_t SMPMAX = static_cast<int64_t>(std::numeric_limits<int64_t>::max() - (std::numeric_limits<int64_t>::max() % SMPTHR));
-	int64_t x;
-	int64_t ret;
+	// the number of values in the range, zero if it is the entire range of the type
+	const uint64_t SMPTHR = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
 
-	do
+	if (SMPTHR == 0)
 	{
-		x = NextInt64();
-		ret = x % SMPTHR;
+		return NextInt64();
 	}
-	while (x >= SMPMAX || ret < 0);
 
-	return Minimum + ret;
+	const uint64_t SMPMAX = static_cast<uint64_t>(std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
+	uint64_t x;
+
+	do
+	{
+		x = NextUInt64();
+	} 
+	while (x >= SMPMAX);
+
+	return static_cast<int64_t>(static_cast<uint64_t>(Minimum) + (x % SMPTHR));
 }
 
 uint64_t SecureRandom::NextUInt64()
@@ -539,19 +564,24 @@ uint64_t SecureRandom::NextUInt64(uint64_t Maximum, uint64_t Minimum)
 		throw CryptoRandomException(Name(), std::string("NextUInt64"), std::string("Maximum can not be less than Minimum!"), ErrorCodes::IllegalOperation);
 	}
 
-	const uint64_t SMPTHR = (Maximum - Minimum + 1);
-	const uint64_t SMPMAX = (std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
+	// the number of values in the range, zero if it is the entire range of the type
+	const uint64_t SMPTHR = static_cast<uint64_t>(static_cast<uint64_t>(Maximum) - static_cast<uint64_t>(Minimum) + 1);
+
+	if (SMPTHR == 0)
+	{
+		return NextUInt64();
+	}
+
+	const uint64_t SMPMAX = static_cast<uint64_t>(std::numeric_limits<uint64_t>::max() - (std::numeric_limits<uint64_t>::max() % SMPTHR));
 	uint64_t x;
-	uint64_t ret;
 
 	do
 	{
 		x = NextUInt64();
-		ret = x % SMPTHR;
 	} 
 	while (x >= SMPMAX);
 
-	return Minimum + ret;
+	return static_cast<uint64_t>(static_cast<uint64_t>(Minimum) + (x % SMPTHR));
 }
 
 NAMESPACE_PRNGEND
-- 
2.43.0


From 67d8e9ae9348514f0cf4d851e2c65d3ff7d19744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:02 +0000
Subject: [PATCH 031/128] fix: CSR and HCR generate only the requested length
 into their temporary

---
 CEX/CSR.cpp | 2 +-
 CEX/HCR.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 4386154..66854fa 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -88,7 +88,7 @@ void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index 16375ba..c80a3f7 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -91,7 +91,7 @@ void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 
 	SecureVector<uint8_t> tmp(Length);
 
-	Generate(tmp, 0, Output.size(), m_rngGenerator);
+	Generate(tmp, 0, Length, m_rngGenerator);
 	SecureMove(tmp, 0, Output, Offset, tmp.size());
 }
 
-- 
2.43.0


From 1ffa2bc0539ea6166b7a93756738848f957e4cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 032/128] fix: memory and secure streams read and write at
 positions, not past the end or the destination offset

---
 CEX/MemoryStream.cpp | 12 +++++++-----
 CEX/SecureStream.cpp | 18 +++++++++++-------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index 55fd66f..f989e61 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -127,9 +127,11 @@ void MemoryStream::Destroy()
 
 size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const uint64_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -143,7 +145,7 @@ size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t MemoryStream::ReadByte()
 {
-	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream length exceeded");
+	CEXASSERT(m_streamPosition < m_streamData.size(), "Stream length exceeded");
 	uint8_t data = 0;
 	MemoryTools::CopyToValue(m_streamData, m_streamPosition, data, 1);
 	m_streamPosition += 1;
@@ -200,9 +202,9 @@ void MemoryStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void MemoryStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	if (m_streamPosition >= m_streamData.size())
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index bf21f8f..1f36f58 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -147,9 +147,11 @@ void SecureStream::Destroy()
 
 size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if (Offset + Length > m_streamData.size() - m_streamPosition)
+	const uint64_t RMDLEN = (m_streamPosition < m_streamData.size()) ? m_streamData.size() - m_streamPosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_streamData.size() - m_streamPosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -165,7 +167,7 @@ size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t SecureStream::ReadByte()
 {
-	CEXASSERT(m_streamData.size() - m_streamPosition >= 1, "Stream capacity exceeded");
+	CEXASSERT(m_streamPosition < m_streamData.size(), "Stream capacity exceeded");
 
 	uint8_t data = 0;
 	Transform();
@@ -230,6 +232,8 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 	len = m_streamPosition + Length;
 
+	Transform();
+
 	if (m_streamData.capacity() - m_streamPosition < Length)
 	{
 		m_streamData.reserve(len);
@@ -239,7 +243,6 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 		m_streamData.resize(len);
 	}
 
-	Transform();
 	MemoryTools::Copy(Input, Offset, m_streamData, m_streamPosition, Length);
 	Transform();
 	m_streamPosition += Length;
@@ -247,12 +250,13 @@ void SecureStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_
 
 void SecureStream::WriteByte(uint8_t Value)
 {
-	if (m_streamData.size() - m_streamPosition < 1)
+	Transform();
+
+	if (m_streamPosition >= m_streamData.size())
 	{
-		m_streamData.resize(m_streamData.size() + 1);
+		m_streamData.resize(m_streamPosition + 1);
 	}
 
-	Transform();
 	MemoryTools::CopyFromValue(Value, m_streamData, m_streamPosition, 1);
 	Transform();
 	m_streamPosition += 1;
-- 
2.43.0


From 90b829fe4ebcaac1b0ada17c4076f6506d75f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 033/128] fix: the key salt of a secure stream is a value, not
 a buffer size

---
 CEX/SecureStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index 1f36f58..b7d9d2d 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -27,7 +27,7 @@ SecureStream::SecureStream()
 SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
@@ -43,7 +43,7 @@ SecureStream::SecureStream(size_t Length, uint64_t KeySalt)
 SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(Data),
 	m_streamPosition(0)
 {
@@ -59,7 +59,7 @@ SecureStream::SecureStream(const std::vector<uint8_t> &Data, uint64_t KeySalt)
 SecureStream::SecureStream(std::vector<uint8_t> &Data, size_t Offset, size_t Length, uint64_t KeySalt)
 	:
 	m_isDestroyed(false),
-	m_keySalt(KeySalt),
+	m_keySalt(0),
 	m_streamData(0),
 	m_streamPosition(0)
 {
-- 
2.43.0


From 2c60fd1c92d575a574b415d7b41d47a3205b740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 034/128] fix: a file stream opens in binary, reports failure,
 and knows its size and position

---
 CEX/FileStream.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index f6e177a..38d2adf 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -31,7 +31,8 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file does not exist!"), ErrorCodes::InvalidParam);
 	}
 
-	m_fileSize = FileSize(m_fileName);
+	// the contents are raw bytes in every mode
+	Mode = static_cast<FileModes>(static_cast<int32_t>(Mode) | static_cast<int32_t>(FileModes::Binary));
 
 	try
 	{
@@ -42,6 +43,19 @@ FileStream::FileStream(const std::string &FileName, FileAccess Access, FileModes
 	{
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
 	}
+
+	if (!m_fileStream.is_open())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("The file could not be opened!"), ErrorCodes::UnKnown);
+	}
+
+	// opening may have truncated the file
+	m_fileSize = FileSize(m_fileName);
+
+	if (m_fileMode == FileModes::AtEnd)
+	{
+		m_filePosition = m_fileSize;
+	}
 }
 
 FileStream::~FileStream()
-- 
2.43.0


From 8d866f4bf5ff79979fb6b7a7ea5f29f86876289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 035/128] fix: FileStream::CopyTo copies the file, from the
 chunk it read, and keeps its position

---
 CEX/FileStream.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index 38d2adf..035bd16 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -149,14 +149,14 @@ void FileStream::CopyTo(IByteStream* Destination)
 		std::vector<uint8_t> buffer(CHUNK_SIZE);
 		m_fileStream.seekg(0, std::ios::beg);
 
-		uint32_t bteCtr = 0;
+		uint64_t bteCtr = 0;
 
 		if (ALNLEN >= CHUNK_SIZE)
 		{
 			while (bteCtr != ALNLEN)
 			{
 				m_fileStream.read(reinterpret_cast<char*>(buffer.data()), CHUNK_SIZE);
-				Destination->Write(buffer, bteCtr, CHUNK_SIZE);
+				Destination->Write(buffer, 0, CHUNK_SIZE);
 				bteCtr += CHUNK_SIZE;
 			}
 		}
@@ -164,15 +164,18 @@ void FileStream::CopyTo(IByteStream* Destination)
 		if (ALNLEN != m_fileSize)
 		{
 			m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize - ALNLEN);
-			Destination->Write(buffer, ALNLEN, m_fileSize - ALNLEN);
+			Destination->Write(buffer, 0, m_fileSize - ALNLEN);
 		}
 	}
 	else
 	{
 		std::vector<uint8_t> buffer(m_fileSize);
 		m_fileStream.seekg(0, std::ios::beg);
+		m_fileStream.read(reinterpret_cast<char*>(buffer.data()), m_fileSize);
 		Destination->Write(buffer, 0, m_fileSize);
 	}
+
+	m_fileStream.seekg(m_filePosition, std::ios::beg);
 }
 
 void FileStream::Destroy()
-- 
2.43.0


From 6a263295ac963f3d8885c898d392ff4ca0cd30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 036/128] fix: FileStream reads to the end of the file and
 grows only when written beyond it

---
 CEX/FileStream.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index 035bd16..6f32be7 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -223,9 +223,11 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 {
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
-	if (Offset + Length > m_fileSize - m_filePosition)
+	const uint64_t RMDLEN = (m_filePosition < m_fileSize) ? m_fileSize - m_filePosition : 0;
+
+	if (Length > RMDLEN)
 	{
-		Length = m_fileSize - m_filePosition;
+		Length = RMDLEN;
 	}
 
 	if (Length > 0)
@@ -240,7 +242,7 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 
 uint8_t FileStream::ReadByte()
 {
-	CEXASSERT(m_fileSize - m_filePosition >= 1, "Reached end of file");
+	CEXASSERT(m_filePosition < m_fileSize, "Reached end of file");
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
 	uint8_t data(1);
@@ -305,7 +307,7 @@ void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t
 
 	m_fileStream.write(reinterpret_cast<const char*>(&Input[Offset]), Length);
 	m_filePosition += Length;
-	m_fileSize += Length;
+	m_fileSize = (m_filePosition > m_fileSize) ? m_filePosition : m_fileSize;
 	m_fileWritten += Length;
 
 	if (m_fileWritten >= CHUNK_SIZE)
@@ -321,7 +323,7 @@ void FileStream::WriteByte(uint8_t Value)
 
 	m_fileStream.write(reinterpret_cast<char*>(&Value), 1);
 	m_filePosition++;
-	m_fileSize++;
+	m_fileSize = (m_filePosition > m_fileSize) ? m_filePosition : m_fileSize;
 	m_fileWritten++;
 
 	if (m_fileWritten >= CHUNK_SIZE)
-- 
2.43.0


From 41437c02e06b25c5f20e3d26390b3d534ca6a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:39 +0000
Subject: [PATCH 037/128] fix: FileStream::SetLength cuts or extends the file,
 and its bytes and position stay

---
 CEX/FileStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index 6f32be7..0e33b21 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -282,23 +282,28 @@ void FileStream::SetLength(uint64_t Length)
 
 	if (Length < m_fileSize)
 	{
+		m_fileStream.flush();
 #if defined(CEX_OS_WINDOWS)
 		int32_t handle = 0;
 
 		if (_sopen_s(&handle, m_fileName.c_str(), _O_RDWR | _O_CREAT, _SH_DENYNO, _S_IREAD | _S_IWRITE) == 0)
 		{
 			_chsize(handle, Length);
+			_close(handle);
 		}
 #elif defined(CEX_OS_POSIX)
 		truncate(m_fileName.c_str(), Length);
 #endif
 	}
-	else
+	else if (Length > m_fileSize)
 	{
 		m_fileStream.seekg(Length - 1, std::ios::beg);
 		m_fileStream.write("", 1);
-		m_fileStream.seekg(0, std::ios::beg);
+		m_fileStream.flush();
 	}
+
+	m_fileSize = Length;
+	m_fileStream.seekg(m_filePosition, std::ios::beg);
 }
 
 void FileStream::Write(const std::vector<uint8_t> &Input, size_t Offset, size_t Length)
-- 
2.43.0


From a74a247fb59211c278a8363518bf815731f31415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:27 +0000
Subject: [PATCH 038/128] fix: StreamReader::Read could not be compiled

---
 CEX/StreamReader.h | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/CEX/StreamReader.h b/CEX/StreamReader.h
index 0923ee1..5591a2c 100644
--- a/CEX/StreamReader.h
+++ b/CEX/StreamReader.h
@@ -81,21 +81,17 @@ public:
 	/// <param name="OutOffset">The starting offset in the T integer array</param>
 	/// <param name="Elements">The number of T integers to write to the array</param>
 	template <typename Array>
-	size_t Read(const Array &Output, size_t OutOffset, size_t Elements)
+	size_t Read(Array &Output, size_t OutOffset, size_t Elements)
 	{
-		const size_t OTPLEN = (m_streamData.Position() + (sizeof(Array::value_type) * Elements)) > m_streamData.size() ?
-			(m_streamData.size() - m_streamData.Position() - ()) :
-			sizeof(Array::value_type) * Elements;
-
-		if (sizeof(Array::value_type) > 1)
-		{
-			IntegerTools::BlockToLe(m_streamData.ToArray(), m_streamData.Position(), Output, OutOffset, OTPLEN);
-		}
-		{
-			MemoryTools::Copy(m_streamData.ToArray(), m_streamData.Position(), val, OTPLEN);
-		}
+		const size_t VALLEN = sizeof(typename Array::value_type);
+		// whole elements only, as many as the stream still holds
+		const size_t RMDELM = static_cast<size_t>(m_streamData.Length() - m_streamData.Position()) / VALLEN;
+		const size_t OTPLEN = VALLEN * ((Elements > RMDELM) ? RMDELM : Elements);
 
+		IntegerTools::BlockToLe(m_streamData.ToArray(), m_streamData.Position(), Output, OutOffset, OTPLEN);
 		m_streamData.Seek(m_streamData.Position() + OTPLEN, SeekOrigin::Begin);
+
+		return OTPLEN;
 	}
 
 	/// <summary>
-- 
2.43.0


From 75587638c621152eb6f220520edc1a2252f82118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 039/128] fix: ReadByte refuses to read past the end of a byte
 stream

---
 CEX/FileStream.cpp   | 6 +++++-
 CEX/MemoryStream.cpp | 5 ++++-
 CEX/SecureStream.cpp | 5 ++++-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/CEX/FileStream.cpp b/CEX/FileStream.cpp
index 0e33b21..9ca6e25 100644
--- a/CEX/FileStream.cpp
+++ b/CEX/FileStream.cpp
@@ -242,9 +242,13 @@ size_t FileStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Leng
 
 uint8_t FileStream::ReadByte()
 {
-	CEXASSERT(m_filePosition < m_fileSize, "Reached end of file");
 	CEXASSERT(m_fileAccess != FileAccess::Write, "File is write only");
 
+	if (m_filePosition >= m_fileSize)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("Reached end of file"), ErrorCodes::InvalidParam);
+	}
+
 	uint8_t data(1);
 	m_fileStream.read(reinterpret_cast<char*>(&data), 1);
 	m_filePosition += 1;
diff --git a/CEX/MemoryStream.cpp b/CEX/MemoryStream.cpp
index f989e61..8232ab8 100644
--- a/CEX/MemoryStream.cpp
+++ b/CEX/MemoryStream.cpp
@@ -145,7 +145,10 @@ size_t MemoryStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t MemoryStream::ReadByte()
 {
-	CEXASSERT(m_streamPosition < m_streamData.size(), "Stream length exceeded");
+	if (m_streamPosition >= m_streamData.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("Stream length exceeded"), Enumeration::ErrorCodes::InvalidParam);
+	}
 	uint8_t data = 0;
 	MemoryTools::CopyToValue(m_streamData, m_streamPosition, data, 1);
 	m_streamPosition += 1;
diff --git a/CEX/SecureStream.cpp b/CEX/SecureStream.cpp
index b7d9d2d..705f0e2 100644
--- a/CEX/SecureStream.cpp
+++ b/CEX/SecureStream.cpp
@@ -167,7 +167,10 @@ size_t SecureStream::Read(std::vector<uint8_t> &Output, size_t Offset, size_t Le
 
 uint8_t SecureStream::ReadByte()
 {
-	CEXASSERT(m_streamPosition < m_streamData.size(), "Stream capacity exceeded");
+	if (m_streamPosition >= m_streamData.size())
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("ReadByte"), std::string("Stream capacity exceeded"), Enumeration::ErrorCodes::InvalidParam);
+	}
 
 	uint8_t data = 0;
 	Transform();
-- 
2.43.0


From 079849a0e407117b96bbe5a232940b258e926a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 040/128] fix: the typed stream reader refuses to read past the
 end

---
 CEX/StreamReader.cpp | 10 ++++++++--
 CEX/StreamReader.h   |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/CEX/StreamReader.cpp b/CEX/StreamReader.cpp
index bdee4d3..554a6d3 100644
--- a/CEX/StreamReader.cpp
+++ b/CEX/StreamReader.cpp
@@ -30,7 +30,10 @@ const size_t StreamReader::Position()
 
 uint8_t StreamReader::ReadByte()
 {
-	CEXASSERT(m_streamData.Position() + sizeof(uint8_t) <= m_streamData.Length(), "Exceeds stream length");
+	if (m_streamData.Position() + sizeof(uint8_t) > m_streamData.Length())
+	{
+		throw CryptoProcessingException(std::string("StreamReader"), std::string("ReadByte"), std::string("Exceeds stream length"), Enumeration::ErrorCodes::InvalidParam);
+	}
 
 	std::vector<uint8_t> data(1);
 	m_streamData.Read(data, 0, 1);
@@ -39,7 +42,10 @@ uint8_t StreamReader::ReadByte()
 
 std::vector<uint8_t> StreamReader::ReadBytes(size_t Length)
 {
-	CEXASSERT(m_streamData.Position() + Length <= m_streamData.Length(), "Exceeds stream length");
+	if (Length > m_streamData.Length() - m_streamData.Position())
+	{
+		throw CryptoProcessingException(std::string("StreamReader"), std::string("ReadBytes"), std::string("Exceeds stream length"), Enumeration::ErrorCodes::InvalidParam);
+	}
 
 	std::vector<uint8_t> data(Length);
 	m_streamData.Read(data, 0, Length);
diff --git a/CEX/StreamReader.h b/CEX/StreamReader.h
index 5591a2c..ee987e4 100644
--- a/CEX/StreamReader.h
+++ b/CEX/StreamReader.h
@@ -102,7 +102,10 @@ public:
 	{
 		const size_t VALLEN = sizeof(T);
 
-		CEXASSERT(m_streamData.Position() + VALLEN <= m_streamData.Length(), "Stream length exceeded");
+		if (m_streamData.Position() + VALLEN > m_streamData.Length())
+		{
+			throw CryptoProcessingException(std::string("StreamReader"), std::string("ReadInt"), std::string("Stream length exceeded"), Enumeration::ErrorCodes::InvalidParam);
+		}
 
 		T val = 0;
 
-- 
2.43.0


From 5e1d269e0e4daf4616102614cbe44e73b18d5856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 041/128] fix: SymmetricSecureKey::Clone threw for a key
 created without a salt

---
 CEX/SymmetricSecureKey.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 199154b..05668f7 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -395,7 +395,19 @@ const SecureVector<uint8_t> SymmetricSecureKey::SecureIV()
 
 SymmetricSecureKey* SymmetricSecureKey::Clone()
 {
-	return new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	SymmetricSecureKey* tmpk;
+
+	if (m_secureState->Salt.size() != 0)
+	{
+		tmpk = new SymmetricSecureKey(Key(), IV(), Info(), m_secureState->Policy, SecureUnlock(m_secureState->Salt));
+	}
+	else
+	{
+		// the key was created without a policy or salt
+		tmpk = new SymmetricSecureKey(Key(), IV(), Info());
+	}
+
+	return tmpk;
 }
 
 void SymmetricSecureKey::Reset()
-- 
2.43.0


From 98cced3407f370336669fff21a4beba7684aeae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 042/128] fix: reading a SymmetricSecureKey that was reset
 underflowed the size of its state

---
 CEX/SymmetricSecureKey.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CEX/SymmetricSecureKey.cpp b/CEX/SymmetricSecureKey.cpp
index 05668f7..3a0d4d1 100644
--- a/CEX/SymmetricSecureKey.cpp
+++ b/CEX/SymmetricSecureKey.cpp
@@ -517,6 +517,12 @@ void SymmetricSecureKey::Encipher(std::unique_ptr<SecureKeyState> &State)
 
 void SymmetricSecureKey::Extract(std::unique_ptr<SecureKeyState> &State, size_t StateOffset, SecureVector<uint8_t> &Output, size_t Length)
 {
+	if (Length == 0)
+	{
+		// an empty field, or the key has been reset
+		return;
+	}
+
 	IStreamCipher* cpr = GetStreamCipher(State->Policy);
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->State.size() - cpr->TagSize() : State->State.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
-- 
2.43.0


From 115f03b030d33ebaefceb81776b0e2c30e9c5411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:06 +0000
Subject: [PATCH 043/128] fix: SymmetricKeyGenerator dropped the info of a key
 that has no nonce

---
 CEX/SymmetricKeyGenerator.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/CEX/SymmetricKeyGenerator.cpp b/CEX/SymmetricKeyGenerator.cpp
index 38c0f53..fad0ba9 100644
--- a/CEX/SymmetricKeyGenerator.cpp
+++ b/CEX/SymmetricKeyGenerator.cpp
@@ -69,6 +69,17 @@ SymmetricKey* SymmetricKeyGenerator::GetSymmetricKey(SymmetricKeySize KeySize)
 			pkey = new SymmetricKey(tmpk, tmpn);
 		}
 	}
+	else if (KeySize.InfoSize() != 0)
+	{
+		SecureVector<uint8_t> tmpk(KeySize.KeySize());
+		SecureVector<uint8_t> tmpn(0);
+		SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
+		Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+		pkey = new SymmetricKey(tmpk, tmpn, tmpi);
+	}
 	else
 	{
 		SecureVector<uint8_t> tmpk(KeySize.KeySize());
@@ -115,6 +126,17 @@ SymmetricSecureKey* SymmetricKeyGenerator::GetSecureKey(SymmetricKeySize KeySize
 			pkey = new SymmetricSecureKey(tmpk, tmpn);
 		}
 	}
+	else if (KeySize.InfoSize() != 0)
+	{
+		SecureVector<uint8_t> tmpk(KeySize.KeySize());
+		SecureVector<uint8_t> tmpn(0);
+		SecureVector<uint8_t> tmpi(KeySize.InfoSize());
+
+		Generate(m_providerType, m_securityPolicy, tmpk, 0, tmpk.size());
+		Generate(m_providerType, m_securityPolicy, tmpi, 0, tmpi.size());
+
+		pkey = new SymmetricSecureKey(tmpk, tmpn, tmpi);
+	}
 	else
 	{
 		SecureVector<uint8_t> tmpk(KeySize.KeySize());
-- 
2.43.0


From 0857cff6de1b18302c65450bbb6b661141570a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 044/128] fix: MemoryPool::Allocate carried on after a perfect
 fit, through an invalid iterator, and leaked the block

---
 CEX/MemoryPool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index c3801bc..2311d42 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -95,6 +95,9 @@ void* MemoryPool::Allocate(size_t Length)
 				}
 
 				poolr = m_poolState->MemPool + FSTOFT;
+				// the request is filled, and the erased iterator is invalid
+				best = m_poolState->FreeList.end();
+				break;
 			}
 
 			if (((best == m_poolState->FreeList.end()) || (best->second > itrl->second)) && (itrl->second >= (Length + PadSize(itrl->first, ALNBIT))))
-- 
2.43.0


From 2e5f70eb0c4265e87031b1a4163da195f4710788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 045/128] fix: MemoryPool::Reset added the whole pool to the
 ranges already free

---
 CEX/MemoryPool.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index 2311d42..5ef7df7 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -145,6 +145,7 @@ void* MemoryPool::Allocate(size_t Length)
 void MemoryPool::Reset()
 {
 	Clear(m_poolState->MemPool, 0, m_poolState->PoolSize);
+	m_poolState->FreeList.clear();
 	m_poolState->FreeList.push_back(std::make_pair(0, m_poolState->PoolSize));
 }
 
-- 
2.43.0


From dd2b06651a4a3faeab6edaf9f64d9b0817ebfbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 046/128] fix: MemoryPool guarded its free list with a mutex
 local to each call

---
 CEX/MemoryPool.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CEX/MemoryPool.cpp b/CEX/MemoryPool.cpp
index 5ef7df7..2ebd856 100644
--- a/CEX/MemoryPool.cpp
+++ b/CEX/MemoryPool.cpp
@@ -17,6 +17,7 @@ public:
 	uint8_t* MemPool;
 	size_t MinAlloc;
 	size_t PageSize;
+	std::mutex PoolLock;
 	size_t PoolSize;
 
 	PoolState(uint8_t* Pool, size_t PoolSize, size_t PageSize, size_t MinAlloc, size_t MaxAlloc, uint8_t AlignBit)
@@ -68,10 +69,9 @@ void* MemoryPool::Allocate(size_t Length)
 {
 	std::vector<std::pair<size_t, size_t>>::iterator best;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
-	std::mutex m;
 	void* poolr;
 
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->PoolLock);
 	poolr = nullptr;
 
 	if (Length <= m_poolState->PoolSize && Length >= m_poolState->MinAlloc && Length <= m_poolState->MaxAlloc)
@@ -144,6 +144,8 @@ void* MemoryPool::Allocate(size_t Length)
 
 void MemoryPool::Reset()
 {
+	std::lock_guard<std::mutex> lock(m_poolState->PoolLock);
+
 	Clear(m_poolState->MemPool, 0, m_poolState->PoolSize);
 	m_poolState->FreeList.clear();
 	m_poolState->FreeList.push_back(std::make_pair(0, m_poolState->PoolSize));
@@ -154,8 +156,7 @@ bool MemoryPool::Deallocate(void* Pointer, size_t Length)
 	bool status;
 	std::vector<std::pair<size_t, size_t>>::iterator itrl;
 	std::vector<std::pair<size_t, size_t>>::iterator prev;
-	std::mutex m;
-	std::lock_guard<std::mutex> lock(m);
+	std::lock_guard<std::mutex> lock(m_poolState->PoolLock);
 
 	status = false;
 
-- 
2.43.0


From edd1b64e20b66e39dfaefc7ee326ff0bcba7cbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:20 +0000
Subject: [PATCH 047/128] fix: SecureExtract between secure vectors copied the
 whole input, past the requested elements

---
 CEX/SecureVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SecureVector.h b/CEX/SecureVector.h
index b25a317..aaffffb 100644
--- a/CEX/SecureVector.h
+++ b/CEX/SecureVector.h
@@ -202,7 +202,7 @@ inline static void SecureExtract(const SecureVector<T> &Input, size_t InOffset,
 		Output.resize(OTPSZE);
 	}
 
-	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Input.size() * sizeof(T));
+	MemoryTools::Copy(Input, InOffset, Output, OutOffset, Elements * sizeof(T));
 }
 
 /// <summary>
-- 
2.43.0


From c08482b6866d2ef5e22a1899c17a3323876d736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:19 +0000
Subject: [PATCH 048/128] fix: ThreadPool could not be compiled: it copied a
 thread, and detached a worker that uses the pool

---
 CEX/ThreadPool.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CEX/ThreadPool.h b/CEX/ThreadPool.h
index f81c32e..5d94020 100644
--- a/CEX/ThreadPool.h
+++ b/CEX/ThreadPool.h
@@ -120,9 +120,8 @@ public:
 
         if (ThreadCount() < MaximumThreads())
         {
-            std::thread thd([this] { this->Task(); });
-            thd.detach();
-            m_threadPool.push_back(thd);
+            // the worker uses the pool, and is joined with it
+            m_threadPool.push_back(std::thread([this] { this->Task(); }));
         }
 
         m_threadQueue.emplace_back(Task);
-- 
2.43.0


From 4c47e04ed77d54fa5a473089e79f1415720a3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:44 +0000
Subject: [PATCH 049/128] fix: ThreadPool::AddTask locked its mutex twice, and
 ignored the number of threads asked for

---
 CEX/ThreadPool.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/CEX/ThreadPool.h b/CEX/ThreadPool.h
index 5d94020..b25f749 100644
--- a/CEX/ThreadPool.h
+++ b/CEX/ThreadPool.h
@@ -85,9 +85,7 @@ public:
     /// </summary>
     const size_t MaximumThreads()
     {
-        std::lock_guard<std::mutex> guard(m_queueMutex);
-
-        return DEF_MAXTHREADS;
+        return m_maxThreads;
     }
 
     /// <summary>
@@ -99,7 +97,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (ThreadCount() < MaximumThreads())
+        if (m_threadPool.size() < m_maxThreads)
         {
             m_threadPool.push_back(std::thread([this] { this->Task(); }));
         }
@@ -118,7 +116,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (ThreadCount() < MaximumThreads())
+        if (m_threadPool.size() < m_maxThreads)
         {
             // the worker uses the pool, and is joined with it
             m_threadPool.push_back(std::thread([this] { this->Task(); }));
-- 
2.43.0


From d9ff1b3c0afc24c69f4636008febe312f6bb8024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:04 +0000
Subject: [PATCH 050/128] fix: ThreadPool lost wake-ups: the last task and the
 end of the pool could leave a thread waiting for good

---
 CEX/ThreadPool.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/CEX/ThreadPool.h b/CEX/ThreadPool.h
index b25f749..2092258 100644
--- a/CEX/ThreadPool.h
+++ b/CEX/ThreadPool.h
@@ -97,7 +97,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (m_threadPool.size() < m_maxThreads)
+        if (m_threadPool.size() < m_maxThreads && !m_jobsAbort)
         {
             m_threadPool.push_back(std::thread([this] { this->Task(); }));
         }
@@ -116,7 +116,7 @@ public:
     {
         std::lock_guard<std::mutex> guard(m_queueMutex);
 
-        if (m_threadPool.size() < m_maxThreads)
+        if (m_threadPool.size() < m_maxThreads && !m_jobsAbort)
         {
             // the worker uses the pool, and is joined with it
             m_threadPool.push_back(std::thread([this] { this->Task(); }));
@@ -142,7 +142,11 @@ public:
             }
 
             // wake up any thread that's waiting for a new job
-            m_jobsAbort = true;
+            {
+                // a worker tests the flag under this mutex
+                std::lock_guard<std::mutex> guard(m_queueMutex);
+                m_jobsAbort = true;
+            }
 
             m_jobsAvailable.notify_all();
 
@@ -179,8 +183,13 @@ private:
         {
             NextJob()();
 
-            --m_jobsRemaining;
-            m_waitCondition.notify_one();
+            {
+                // a waiter tests the count under this mutex
+                std::lock_guard<std::mutex> guard(m_waitMutex);
+                --m_jobsRemaining;
+            }
+
+            m_waitCondition.notify_all();
         }
     }
 
-- 
2.43.0


From edaeb6bfb7a8fcae5edbb6d7af7f2e91a875da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:34 +0000
Subject: [PATCH 051/128] fix: ParallelOptions could set up parallel processing
 with a parallel block of no bytes

---
 CEX/ParallelOptions.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/ParallelOptions.cpp b/CEX/ParallelOptions.cpp
index 069398f..f9b0626 100644
--- a/CEX/ParallelOptions.cpp
+++ b/CEX/ParallelOptions.cpp
@@ -241,6 +241,13 @@ void ParallelOptions::Calculate()
 
 		// default to capability
 		m_isParallel = (m_processorCount > 1);
+
+		// the cache may be smaller than what all threads need
+		if (m_isParallel && m_parallelBlockSize < m_parallelMinimumSize)
+		{
+			m_parallelBlockSize = m_parallelMinimumSize;
+		}
+
 		// on init only
 		m_autoInit = false;
 	}
-- 
2.43.0


From 9c8736808d67efe643d3e6ed62f737b1f5fc660f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 052/128] fix: MemoryTools AND and OR process every byte of the
 unaligned remainder

---
 CEX/MemoryTools.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index c4656f4..9f6a6bc 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -170,7 +170,6 @@ public:
 
 		if (Length != 0)
 		{
-			const size_t ELMLEN = sizeof(ArrayA::value_type);
 			pctr = 0;
 
 #if defined(CEX_HAS_AVX) || defined(CEX_HAS_AVX2) || defined(CEX_HAS_AVX512)
@@ -199,9 +198,15 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			if (pctr != Length)
 			{
-				Output[OutOffset + pctr] &= Input[InOffset + pctr];
+				const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data()) + (InOffset * INPLEN);
+				uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data()) + (OutOffset * OTPLEN);
+
+				for (i = pctr; i < Length; ++i)
+				{
+					potp[i] &= pinp[i];
+				}
 			}
 		}
 	}
@@ -1100,7 +1105,6 @@ public:
 	{
 		const size_t INPLEN = sizeof(ArrayA::value_type);
 		const size_t OTPLEN = sizeof(ArrayB::value_type);
-		const size_t ELMLEN = sizeof(ArrayA::value_type);
 		size_t i;
 		size_t pctr;
 
@@ -1139,9 +1143,15 @@ public:
 				}
 			}
 #endif
-			for (i = 0; i < Length - (pctr * ELMLEN); ++i)
+			if (pctr != Length)
 			{
-				Output[OutOffset + pctr] |= Input[InOffset + pctr];
+				const uint8_t* pinp = reinterpret_cast<const uint8_t*>(Input.data()) + (InOffset * INPLEN);
+				uint8_t* potp = reinterpret_cast<uint8_t*>(Output.data()) + (OutOffset * OTPLEN);
+
+				for (i = pctr; i < Length; ++i)
+				{
+					potp[i] |= pinp[i];
+				}
 			}
 		}
 	}
@@ -1168,7 +1178,7 @@ public:
 #else
 		for (size_t i = 0; i < (16 / OTPLEN); ++i)
 		{
-			Output[OutOffset + i] &= Input[InOffset + i];
+			Output[OutOffset + i] |= Input[InOffset + i];
 		}
 #endif
 	}
-- 
2.43.0


From 12f8988e90d554f6324d0cfa480038c9fa4a904e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 053/128] fix: MemoryTools object copies step through the
 object by bytes, not by its element type

---
 CEX/MemoryTools.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/MemoryTools.h b/CEX/MemoryTools.h
index 9f6a6bc..898c6f8 100644
--- a/CEX/MemoryTools.h
+++ b/CEX/MemoryTools.h
@@ -524,11 +524,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY512FROMOBJECT(reinterpret_cast<const uint8_t*>(Input) + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX2)
-					COPY256FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY256FROMOBJECT(reinterpret_cast<const uint8_t*>(Input) + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	elif defined(CEX_HAS_AVX)
-					COPY128FROMOBJECT(Input + pctr, Output, OutOffset + pctr);
+					COPY128FROMOBJECT(reinterpret_cast<const uint8_t*>(Input) + (pctr * ELMLEN), Output, OutOffset + pctr);
 #	endif
 					pctr += SMDBLK;
 				}
@@ -537,7 +537,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(&Output[OutOffset + pctr], Input + pctr, Length - (pctr * ELMLEN));
+				std::memcpy(&Output[OutOffset + pctr], reinterpret_cast<const uint8_t*>(Input) + (pctr * ELMLEN), Length - (pctr * ELMLEN));
 			}
 		}
 	}
@@ -581,11 +581,11 @@ public:
 				while (pctr != ALNLEN)
 				{
 #	if defined(CEX_HAS_AVX512)
-					COPY512TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY512TOOBJECT(Input, InOffset + pctr, reinterpret_cast<uint8_t*>(Output) + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX2)
-					COPY256TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY256TOOBJECT(Input, InOffset + pctr, reinterpret_cast<uint8_t*>(Output) + (pctr * ELMLEN));
 #	elif defined(CEX_HAS_AVX)
-					COPY128TOOBJECT(Input, InOffset + pctr, Output + pctr);
+					COPY128TOOBJECT(Input, InOffset + pctr, reinterpret_cast<uint8_t*>(Output) + (pctr * ELMLEN));
 #	endif
 					pctr += SMDBLK;
 				}
@@ -594,7 +594,7 @@ public:
 
 			if (pctr * ELMLEN != Length)
 			{
-				std::memcpy(Output + pctr, &Input[InOffset + pctr], Length - (pctr * ELMLEN));
+				std::memcpy(reinterpret_cast<uint8_t*>(Output) + (pctr * ELMLEN), &Input[InOffset + pctr], Length - (pctr * ELMLEN));
 			}
 		}
 	}
-- 
2.43.0


From 96ab6e54fafcb2c4630cb4497360c01604517977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 054/128] fix: constant time CMax and CMin compare their two
 values

---
 CEX/IntegerTools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index dd58f62..ad197d5 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2186,7 +2186,7 @@ public:
 	template<typename T>
 	inline static T CMax(T A, T B)
 	{
-		return Select<T>(ExpandTopBit<T>(A), A, B);
+		return Select<T>(IsLess<T>(A, B), B, A);
 	}
 
 	/// <summary>
@@ -2248,7 +2248,7 @@ public:
 	inline static T CMin(T A, T B)
 	{
 		// TODO: test this..
-		return Select<T>(ExpandTopBit<T>(B), B, A);
+		return Select<T>(IsLess<T>(B, A), B, A);
 	}
 
 	/// <summary>
-- 
2.43.0


From bb7e41c36995684ebf8405e88474f933af17a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 055/128] fix: DiffMask detects differences in every bit of the
 array elements

---
 CEX/IntegerTools.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index ad197d5..eeea7e0 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -2338,16 +2338,16 @@ public:
 	{
 		// 
 		size_t i;
-		uint16_t diff;
+		uint64_t diff;
 
 		diff = 0;
 
 		for (i = 0; i < Length; ++i)
 		{
-			diff |= A[i] ^ B[i];
+			diff |= static_cast<uint64_t>(A[i] ^ B[i]);
 		}
 
-		return (1 & ((diff - 1) >> 8)) - 1;
+		return -static_cast<int32_t>((diff | (0ULL - diff)) >> 63);
 	}
 
 	/// <summary>
-- 
2.43.0


From d755f6735fafcccf1702895e484e3784962f2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 056/128] fix: BlockToBe replaces the previous content of the
 output words

---
 CEX/IntegerTools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index eeea7e0..259c98e 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -506,6 +506,8 @@ public:
 
 		for (i = 0; i < Length / VARLEN; ++i)
 		{
+			Output[OutOffset + i] = 0;
+
 			for (j = VARLEN; j > 0; --j)
 			{
 				Output[OutOffset + i] |= static_cast<typename ArrayB::value_type>(Input[InOffset + (i * VARLEN) + (VARLEN - j)]) << (8 * (j - 1));
-- 
2.43.0


From 9bde6c55865a1cafd23f02f3d4d25d6e4019ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:35 +0000
Subject: [PATCH 057/128] fix: HexToInt and FromString convert the whole range
 of 32 and 64 bit integers

---
 CEX/IntegerTools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/IntegerTools.h b/CEX/IntegerTools.h
index 259c98e..706b714 100644
--- a/CEX/IntegerTools.h
+++ b/CEX/IntegerTools.h
@@ -213,7 +213,7 @@ public:
 		T num;
 
 		sval = Input.substr(Offset, Length);
-		num = static_cast<T>(strtol(sval.c_str(), NULL, 10));
+		num = static_cast<T>(strtoull(sval.c_str(), NULL, 10));
 
 		return num;
 	}
@@ -389,7 +389,7 @@ public:
 		T num;
 
 		nhex = Input.substr(Offset, INTLEN);
-		num = static_cast<T>(strtol(nhex.c_str(), NULL, 16));
+		num = static_cast<T>(strtoull(nhex.c_str(), NULL, 16));
 
 		return num;
 	}
-- 
2.43.0


From 39b14502a26eb57f263d9baebf9e21072622f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:52 +0000
Subject: [PATCH 058/128] fix: ECDSAParameters and DLTM4880 headers shared
 their include guards with others

---
 CEX/DLTM4880.h        | 4 ++--
 CEX/ECDSAParameters.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/DLTM4880.h b/CEX/DLTM4880.h
index 508dab1..38c2db3 100644
--- a/CEX/DLTM4880.h
+++ b/CEX/DLTM4880.h
@@ -1,5 +1,5 @@
-#ifndef CEX_DLTMK4Q8380417N256_H
-#define CEX_DLTMK4Q8380417N256_H
+#ifndef CEX_DLTM4880_H
+#define CEX_DLTM4880_H
 
 #include "CexConfig.h"
 #include "IPrng.h"
diff --git a/CEX/ECDSAParameters.h b/CEX/ECDSAParameters.h
index 9dd02ec..a517c6f 100644
--- a/CEX/ECDSAParameters.h
+++ b/CEX/ECDSAParameters.h
@@ -1,5 +1,5 @@
-#ifndef CEX_ECDHPARAMETERS_H
-#define CEX_ECDHPARAMETERS_H
+#ifndef CEX_ECDSAPARAMETERS_H
+#define CEX_ECDSAPARAMETERS_H
 
 #include "CexDomain.h"
 #include "AsymmetricParameters.h"
-- 
2.43.0


From 1e9e34a62e40c4833c408a140bd7031f6cac9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 059/128] fix: three asymmetric parameter sets could not be
 converted to their name and back

---
 CEX/AsymmetricParameters.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/CEX/AsymmetricParameters.cpp b/CEX/AsymmetricParameters.cpp
index 265801a..a28bd9f 100644
--- a/CEX/AsymmetricParameters.cpp
+++ b/CEX/AsymmetricParameters.cpp
@@ -29,6 +29,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::ECDSAS2P25519S:
 		name = std::string("ECDSAS2P25519S");
 		break;
+	case AsymmetricParameters::KYBERS1P1632:
+		name = std::string("KYBERS1P1632");
+		break;
 	case AsymmetricParameters::KYBERS3P2400:
 		name = std::string("KYBERS3P2400");
 		break;
@@ -59,6 +62,9 @@ std::string AsymmetricTransformConvert::ToName(AsymmetricParameters Enumeral)
 	case AsymmetricParameters::SPXPS5S256SHAKE:
 		name = std::string("SPXPS5S256SHAKE");
 		break;
+	case AsymmetricParameters::SPXPS6S512SHAKE:
+		name = std::string("SPXPS6S512SHAKE");
+		break;
 	case AsymmetricParameters::XMSSSHA2256H10:
 		name = std::string("XMSSSHA2256H10");
 		break;
@@ -231,6 +237,10 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::ECDSAS2P25519S;
 	}
+	else if (Name == std::string("KYBERS1P1632"))
+	{
+		tname = AsymmetricParameters::KYBERS1P1632;
+	}
 	else if (Name == std::string("KYBERS3P2400"))
 	{
 		tname = AsymmetricParameters::KYBERS3P2400;
@@ -271,9 +281,13 @@ AsymmetricParameters AsymmetricTransformConvert::FromName(std::string &Name)
 	{
 		tname = AsymmetricParameters::SPXPS5S256SHAKE;
 	}
+	else if (Name == std::string("SPXPS6S512SHAKE"))
+	{
+		tname = AsymmetricParameters::SPXPS6S512SHAKE;
+	}
 	else if (Name == std::string("XMSSSHA2256H10"))
 	{
-		tname = AsymmetricParameters::XMSSSHA2256H16;
+		tname = AsymmetricParameters::XMSSSHA2256H10;
 	}
 	else if (Name == std::string("XMSSSHA2256H16"))
 	{
-- 
2.43.0


From a8e24774c357105aa27c1d2445a4007c549140be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 060/128] fix: the name of CryptoKmsException was missing

---
 CEX/ExceptionTypes.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/ExceptionTypes.cpp b/CEX/ExceptionTypes.cpp
index 086dca2..c925318 100644
--- a/CEX/ExceptionTypes.cpp
+++ b/CEX/ExceptionTypes.cpp
@@ -29,6 +29,9 @@ std::string ExceptionTypeConvert::ToName(ExceptionTypes Enumeral)
 	case ExceptionTypes::CryptoKdfException:
 		name = std::string("CryptoKdfException");
 		break;
+	case ExceptionTypes::CryptoKmsException:
+		name = std::string("CryptoKmsException");
+		break;
 	case ExceptionTypes::CryptoMacException:
 		name = std::string("CryptoMacException");
 		break;
@@ -84,6 +87,10 @@ ExceptionTypes ExceptionTypeConvert::FromName(std::string &Name)
 	{
 		tname = ExceptionTypes::CryptoKdfException;
 	}
+	else if (Name == std::string("CryptoKmsException"))
+	{
+		tname = ExceptionTypes::CryptoKmsException;
+	}
 	else if (Name == std::string("CryptoMacException"))
 	{
 		tname = ExceptionTypes::CryptoMacException;
-- 
2.43.0


From 278314f170299547756453c16bde6df9e0aa767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 061/128] fix: six key derivation functions had no name

---
 CEX/Kdfs.cpp | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/CEX/Kdfs.cpp b/CEX/Kdfs.cpp
index 4f8b3c7..f4d9a1d 100644
--- a/CEX/Kdfs.cpp
+++ b/CEX/Kdfs.cpp
@@ -38,6 +38,24 @@ std::string KdfConvert::ToName(Kdfs Enumeral)
 		case Kdfs::SCBKDF1024:
 			name = std::string("SCBKDF1024");
 			break;
+		case Kdfs::HKDS128:
+			name = std::string("HKDS128");
+			break;
+		case Kdfs::HKDS256:
+			name = std::string("HKDS256");
+			break;
+		case Kdfs::HKDS512:
+			name = std::string("HKDS512");
+			break;
+		case Kdfs::SHAKE128:
+			name = std::string("SHAKE128");
+			break;
+		case Kdfs::SHAKE256:
+			name = std::string("SHAKE256");
+			break;
+		case Kdfs::SHAKE512:
+			name = std::string("SHAKE512");
+			break;
 		default:
 			name = std::string("None");
 			break;
@@ -90,6 +108,30 @@ Kdfs KdfConvert::FromName(std::string &Name)
 	{
 		tname = Kdfs::SCBKDF1024;
 	}
+	else if (Name == std::string("HKDS128"))
+	{
+		tname = Kdfs::HKDS128;
+	}
+	else if (Name == std::string("HKDS256"))
+	{
+		tname = Kdfs::HKDS256;
+	}
+	else if (Name == std::string("HKDS512"))
+	{
+		tname = Kdfs::HKDS512;
+	}
+	else if (Name == std::string("SHAKE128"))
+	{
+		tname = Kdfs::SHAKE128;
+	}
+	else if (Name == std::string("SHAKE256"))
+	{
+		tname = Kdfs::SHAKE256;
+	}
+	else if (Name == std::string("SHAKE512"))
+	{
+		tname = Kdfs::SHAKE512;
+	}
 	else
 	{
 		tname = Kdfs::None;
-- 
2.43.0


From b27d924ec345627ad6b85d3681f2311150cb3cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 062/128] fix: the names of AES and TSXR96K512 did not convert
 both ways

---
 CEX/SymmetricCiphers.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CEX/SymmetricCiphers.cpp b/CEX/SymmetricCiphers.cpp
index ad9e278..3abc3ef 100644
--- a/CEX/SymmetricCiphers.cpp
+++ b/CEX/SymmetricCiphers.cpp
@@ -83,6 +83,9 @@ std::string SymmetricCipherConvert::ToName(SymmetricCiphers Enumeral)
 		case SymmetricCiphers::TSX512:
 			name = std::string("TSX512");
 			break;
+		case SymmetricCiphers::TSXR96K512:
+			name = std::string("TSXR96K512");
+			break;
 		case SymmetricCiphers::TSX1024:
 			name = std::string("TSX1024");
 			break;
@@ -101,7 +104,7 @@ SymmetricCiphers SymmetricCipherConvert::FromName(std::string &Name)
 {
 	SymmetricCiphers tname;
 
-	if (Name == std::string("Rijndael"))
+	if (Name == std::string("AES") || Name == std::string("Rijndael"))
 	{
 		tname = SymmetricCiphers::AES;
 	}
-- 
2.43.0


From 19525966d55f06b3dab9cddf476f31342c3f1eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 063/128] fix: stream authenticators KPA and KMAC were named
 after cipher based macs

---
 CEX/StreamAuthenticators.cpp | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamAuthenticators.cpp b/CEX/StreamAuthenticators.cpp
index ccf9d45..838de93 100644
--- a/CEX/StreamAuthenticators.cpp
+++ b/CEX/StreamAuthenticators.cpp
@@ -4,12 +4,42 @@ NAMESPACE_ENUMERATION
 
 std::string StreamAuthenticatorConvert::ToName(StreamAuthenticators Enumeral)
 {
-	return MacConvert::ToName(static_cast<Macs>(Enumeral));
+	std::string name;
+
+	switch (Enumeral)
+	{
+		case StreamAuthenticators::KPA:
+			name = std::string("KPA");
+			break;
+		case StreamAuthenticators::KMAC:
+			name = std::string("KMAC");
+			break;
+		default:
+			name = MacConvert::ToName(static_cast<Macs>(Enumeral));
+			break;
+	}
+
+	return name;
 }
 
 StreamAuthenticators StreamAuthenticatorConvert::FromName(std::string &Name)
 {
-	return static_cast<StreamAuthenticators>(MacConvert::FromName(Name));
+	StreamAuthenticators tname;
+
+	if (Name == std::string("KPA"))
+	{
+		tname = StreamAuthenticators::KPA;
+	}
+	else if (Name == std::string("KMAC"))
+	{
+		tname = StreamAuthenticators::KMAC;
+	}
+	else
+	{
+		tname = static_cast<StreamAuthenticators>(MacConvert::FromName(Name));
+	}
+
+	return tname;
 }
 
 NAMESPACE_ENUMERATIONEND
\ No newline at end of file
-- 
2.43.0


From d4000116726d559eee88fd7d201441196c2805b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 064/128] fix: the stream cipher factory returned ChaCha for
 the CSX512 types

---
 CEX/StreamCipherFromName.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/StreamCipherFromName.cpp b/CEX/StreamCipherFromName.cpp
index 89c56b5..8112572 100644
--- a/CEX/StreamCipherFromName.cpp
+++ b/CEX/StreamCipherFromName.cpp
@@ -42,12 +42,12 @@ IStreamCipher* StreamCipherFromName::GetInstance(StreamCiphers StreamCipherType)
 			}
 			case StreamCiphers::CSX512:
 			{
-				cptr = new ChaChaP20(false);
+				cptr = new CSX512(false);
 				break;
 			}
 			case StreamCiphers::CSXR80K512:
 			{
-				cptr = new ChaChaP20(true);
+				cptr = new CSX512(true);
 				break;
 			}
 			case StreamCiphers::RCS:
-- 
2.43.0


From 1de38236c571d952029bf9280ca3ee8b1beb88a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 065/128] fix: TSX512 and TSX1024 reported the type of TSX256

---
 CEX/TSX1024.cpp | 2 +-
 CEX/TSX512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 757b156..1bb6e06 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX1024::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX1024, auth);
 
 	return tmpn;
 }
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 5ea5385..2b704ad 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -107,7 +107,7 @@ const StreamCiphers TSX512::Enumeral()
 	auth = IsAuthenticator() ? 
 		StreamAuthenticators::KMAC512 : 
 		StreamAuthenticators::None;
-	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX256, auth);
+	tmpn = Enumeration::StreamCipherConvert::FromDescription(StreamCiphers::TSX512, auth);
 
 	return tmpn;
 }
-- 
2.43.0


From 4b8e9d3dae83498791f9c8241e94099d6fffe86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 066/128] fix: ECDSA and Dilithium reported the type of
 SphincsPlus

---
 CEX/Dilithium.cpp | 2 +-
 CEX/ECDSA.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index c99e577..b0ef97a 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -89,7 +89,7 @@ Dilithium::~Dilithium()
 
 const AsymmetricPrimitives Dilithium::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::Dilithium;
 }
 
 const bool Dilithium::IsInitialized()
diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index 3af96b7..daf8016 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -105,7 +105,7 @@ ECDSA::~ECDSA()
 
 const AsymmetricPrimitives ECDSA::Enumeral()
 {
-	return AsymmetricPrimitives::SphincsPlus;
+	return AsymmetricPrimitives::ECDSA;
 }
 
 const bool ECDSA::IsInitialized()
-- 
2.43.0


From 33088b2b5b1b4b142830367827db885ba6318357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 067/128] fix: SphincsPlus reported the name of Dilithium

---
 CEX/SphincsPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index a77a0aa..d1ef746 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -103,7 +103,7 @@ const std::string SphincsPlus::Name()
 {
 	std::string ret;
 
-	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::Dilithium) + std::string("") + 
+	ret = AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus) + std::string("") + 
 		SphincsPlusParameterConvert::ToName(m_sphincsState->Parameters);
 
 	return ret;
-- 
2.43.0


From 5331b6875fc07050846871a43ee4737b3568ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 068/128] fix: SphincsPlus accepted parameter sets of other
 primitives

---
 CEX/SphincsPlus.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/CEX/SphincsPlus.cpp b/CEX/SphincsPlus.cpp
index d1ef746..9ed313c 100644
--- a/CEX/SphincsPlus.cpp
+++ b/CEX/SphincsPlus.cpp
@@ -38,7 +38,11 @@ public:
 
 SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, Prngs PrngType)
 	:
-	m_sphincsState(new SphincsState(Parameters != SphincsPlusParameters::None ? Parameters :
+	m_sphincsState(new SphincsState(Parameters == SphincsPlusParameters::SPXPS1S128SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS3S192SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS5S256SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS6S512SHAKE ? 
+			Parameters :
 		throw CryptoAsymmetricException(AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus), std::string("Constructor"), std::string("The Kyber parameter set is invalid!"), ErrorCodes::InvalidParam),
 		true)),
 	m_privateKey(nullptr),
@@ -50,7 +54,11 @@ SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, Prngs PrngType)
 
 SphincsPlus::SphincsPlus(SphincsPlusParameters Parameters, IPrng* Rng)
 	:
-	m_sphincsState(new SphincsState(Parameters != SphincsPlusParameters::None ? Parameters :
+	m_sphincsState(new SphincsState(Parameters == SphincsPlusParameters::SPXPS1S128SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS3S192SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS5S256SHAKE ||
+		Parameters == SphincsPlusParameters::SPXPS6S512SHAKE ? 
+			Parameters :
 		throw CryptoAsymmetricException(AsymmetricPrimitiveConvert::ToName(AsymmetricPrimitives::SphincsPlus), std::string("Constructor"), std::string("The Kyber parameter set is invalid!"), ErrorCodes::InvalidParam),
 		false)),
 	m_privateKey(nullptr),
-- 
2.43.0


From 16a520d75c9e258c1cf20d9fdc528333066dff26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 069/128] fix: the mac factory did not know KMAC128

---
 CEX/MacFromName.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/MacFromName.cpp b/CEX/MacFromName.cpp
index 383561a..cd0a2f7 100644
--- a/CEX/MacFromName.cpp
+++ b/CEX/MacFromName.cpp
@@ -93,6 +93,11 @@ IMac* MacFromName::GetInstance(Macs MacType)
 				mptr = new HMAC(SHA2Digests::SHA2512);
 				break;
 			}
+			case Macs::KMAC128:
+			{
+				mptr = new KMAC(KmacModes::KMAC128);
+				break;
+			}
 			case Macs::KMAC256:
 			{
 				mptr = new KMAC(KmacModes::KMAC256);
-- 
2.43.0


From fce1f88402fa8e393a877064eedfa3d977f15d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:42 +0000
Subject: [PATCH 070/128] fix: the prng factory returned the SHA2-256 generator
 for HCRS512

---
 CEX/PrngFromName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/PrngFromName.cpp b/CEX/PrngFromName.cpp
index 41c0cba..567eafa 100644
--- a/CEX/PrngFromName.cpp
+++ b/CEX/PrngFromName.cpp
@@ -48,7 +48,7 @@ IPrng* PrngFromName::GetInstance(Prngs PrngType, Providers ProviderType)
 			}
 			case Prngs::HCRS512:
 			{
-				rptr = new HCR(SHA2Digests::SHA2256, ProviderType);
+				rptr = new HCR(SHA2Digests::SHA2512, ProviderType);
 				break;
 			}
 			default:
-- 
2.43.0


From b79430fc1af874349e32e256d1a100c52c671e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:19 +0000
Subject: [PATCH 071/128] fix: GCM and GMAC listed key sizes the extended
 ciphers do not take

---
 CEX/GCM.cpp  | 8 ++++----
 CEX/GMAC.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index cc6593d..6e7d475 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -74,9 +74,9 @@ GCM::GCM(BlockCiphers CipherType)
 			SymmetricKeySize(24, BLOCK_SIZE, 0),
 			SymmetricKeySize(32, BLOCK_SIZE, 0) } :
 		std::vector<SymmetricKeySize> { 
-			SymmetricKeySize(16, BLOCK_SIZE, 0), 
 			SymmetricKeySize(32, BLOCK_SIZE, 0), 
-			SymmetricKeySize(64, BLOCK_SIZE, 0) }),
+			SymmetricKeySize(64, BLOCK_SIZE, 0), 
+			SymmetricKeySize(128, BLOCK_SIZE, 0) }),
 	m_parallelProfile(BLOCK_SIZE, m_cipherMode->ParallelProfile().IsParallel(), m_cipherMode->ParallelProfile().ParallelBlockSize(),
 		m_cipherMode->ParallelProfile().ParallelMaxDegree(), true, m_cipherMode->Engine()->StateCacheSize(), true)
 {
@@ -94,9 +94,9 @@ GCM::GCM(IBlockCipher* Cipher)
 			SymmetricKeySize(24, BLOCK_SIZE, 0), 
 			SymmetricKeySize(32, BLOCK_SIZE, 0) } :
 		std::vector<SymmetricKeySize>{ 
-			SymmetricKeySize(16, BLOCK_SIZE, 0), 
 			SymmetricKeySize(32, BLOCK_SIZE, 0), 
-			SymmetricKeySize(64, BLOCK_SIZE, 0) }),
+			SymmetricKeySize(64, BLOCK_SIZE, 0), 
+			SymmetricKeySize(128, BLOCK_SIZE, 0) }),
 	m_parallelProfile(BLOCK_SIZE, m_cipherMode->ParallelProfile().IsParallel(), m_cipherMode->ParallelProfile().ParallelBlockSize(),
 		m_cipherMode->ParallelProfile().ParallelMaxDegree(), true, m_cipherMode->Engine()->StateCacheSize(), true)
 {
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 5f8b7ee..3463842 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -69,9 +69,9 @@ GMAC::GMAC(BlockCiphers CipherType)
 				SymmetricKeySize(24, CMUL::CMUL_BLOCK_SIZE, 0),
 				SymmetricKeySize(32, CMUL::CMUL_BLOCK_SIZE, 0)} :
 			std::vector<SymmetricKeySize>{
-				SymmetricKeySize(16, CMUL::CMUL_BLOCK_SIZE, 0),
 				SymmetricKeySize(32, CMUL::CMUL_BLOCK_SIZE, 0),
-				SymmetricKeySize(64, CMUL::CMUL_BLOCK_SIZE, 0)}),
+				SymmetricKeySize(64, CMUL::CMUL_BLOCK_SIZE, 0),
+				SymmetricKeySize(128, CMUL::CMUL_BLOCK_SIZE, 0)}),
 #if defined(CEX_ENFORCE_LEGALKEY)
 		CMUL::CMUL_BLOCK_SIZE,
 		CMUL::CMUL_BLOCK_SIZE,
@@ -99,9 +99,9 @@ GMAC::GMAC(IBlockCipher* Cipher)
 					SymmetricKeySize(24, CMUL::CMUL_BLOCK_SIZE, 0),
 					SymmetricKeySize(32, CMUL::CMUL_BLOCK_SIZE, 0)} :
 				std::vector<SymmetricKeySize>{
-					SymmetricKeySize(16, CMUL::CMUL_BLOCK_SIZE, 0),
 					SymmetricKeySize(32, CMUL::CMUL_BLOCK_SIZE, 0),
-					SymmetricKeySize(64, CMUL::CMUL_BLOCK_SIZE, 0)}),
+					SymmetricKeySize(64, CMUL::CMUL_BLOCK_SIZE, 0),
+					SymmetricKeySize(128, CMUL::CMUL_BLOCK_SIZE, 0)}),
 #if defined(CEX_ENFORCE_LEGALKEY)
 		CMUL::CMUL_BLOCK_SIZE,
 		CMUL::CMUL_BLOCK_SIZE,
-- 
2.43.0


From 0cc968c7a69130612c259fe1629ea745055ee16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:36 +0000
Subject: [PATCH 072/128] fix: CMAC listed key sizes its cipher does not take

---
 CEX/CMAC.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index ceb5d9f..84ca687 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -52,9 +52,15 @@ CMAC::CMAC(BlockCiphers CipherType)
 		BLOCK_SIZE,
 		Macs::CMAC,
 		(MacConvert::ToName(Macs::CMAC) + std::string("-") + BlockCipherConvert::ToName(CipherType)),
-		std::vector<SymmetricKeySize> {
-			SymmetricKeySize(32, 0, 0),
-			SymmetricKeySize(64, 0, 0)},
+		(CipherType == BlockCiphers::AES || CipherType == BlockCiphers::Serpent) ?
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(16, 0, 0),
+				SymmetricKeySize(24, 0, 0),
+				SymmetricKeySize(32, 0, 0)} :
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(32, 0, 0),
+				SymmetricKeySize(64, 0, 0),
+				SymmetricKeySize(128, 0, 0)},
 #if defined(CEX_ENFORCE_LEGALKEY)
 		32,
 		32,
@@ -78,9 +84,15 @@ CMAC::CMAC(IBlockCipher* Cipher)
 		(Cipher != nullptr ? 
 			MacConvert::ToName(Macs::CMAC) + std::string("-") + BlockCipherConvert::ToName(Cipher->Enumeral()) :
 			std::string("")),
-		std::vector<SymmetricKeySize> {
-			SymmetricKeySize(32, 0, 0),
-			SymmetricKeySize(64, 0, 0)},
+		(Cipher == nullptr || Cipher->Enumeral() == BlockCiphers::AES || Cipher->Enumeral() == BlockCiphers::Serpent) ?
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(16, 0, 0),
+				SymmetricKeySize(24, 0, 0),
+				SymmetricKeySize(32, 0, 0)} :
+			std::vector<SymmetricKeySize> {
+				SymmetricKeySize(32, 0, 0),
+				SymmetricKeySize(64, 0, 0),
+				SymmetricKeySize(128, 0, 0)},
 #if defined(CEX_ENFORCE_LEGALKEY)
 		32,
 		32,
-- 
2.43.0


From 63de1df4896a103a93ca439d9fcdc0fb0953efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 073/128] fix: XMSS took the one-time key index from the old
 content of the signature array

---
 CEX/XmssCore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 585456d..3661694 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1319,8 +1319,8 @@ int32_t XMSSCore::XmssMtCoreSign(const XmssParams &Params, std::vector<uint8_t>
 	SigLength = Params.SignatureSize + MsgLength;
 
 	// read and use the current index from the secret key
-	idx = BytesToUll(Signature, Params.IndexSize);
 	MemoryTools::Copy(SecretKey, skoft, Signature, 0, Params.IndexSize);
+	idx = BytesToUll(Signature, Params.IndexSize);
 
 	// Note: the secret key can be updated here
 	// increment the index in the secret key
-- 
2.43.0


From 861d616a2226f0dcf90c55ca2bf975ea1bb3375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 074/128] fix: XMSS signed every message with the same one-time
 key

---
 CEX/AsymmetricKey.cpp | 10 ++++++++++
 CEX/AsymmetricKey.h   |  9 +++++++++
 CEX/XMSS.cpp          | 12 +++++++++++-
 CEX/XmssCore.cpp      | 30 ++++++++++++++++++++++++++----
 CEX/XmssCore.h        |  4 +++-
 5 files changed, 59 insertions(+), 6 deletions(-)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index 4bf5a0c..da6f85b 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -129,6 +129,16 @@ void AsymmetricKey::Reset()
 	m_keyState->Reset();
 }
 
+void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
+{
+	if (Polynomial.size() != m_keyState->Polynomial.size())
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("Update"), std::string("The polynomial size is invalid!"), ErrorCodes::InvalidParam);
+	}
+
+	MemoryTools::Copy(Polynomial, 0, m_keyState->Polynomial, 0, Polynomial.size());
+}
+
 //~~~Static Functions~~~//
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
diff --git a/CEX/AsymmetricKey.h b/CEX/AsymmetricKey.h
index 4dbc263..35afc1b 100644
--- a/CEX/AsymmetricKey.h
+++ b/CEX/AsymmetricKey.h
@@ -109,6 +109,15 @@ public:
 	/// </summary>
 	void Reset() override;
 
+	/// <summary>
+	/// Replace the keys polynomial; used by stateful signature schemes to store the advanced private key
+	/// </summary>
+	/// 
+	/// <param name="Polynomial">The updated polynomial key standard-vector</param>
+	///
+	/// <exception cref="CryptoAsymmetricException">Thrown if the size differs from the current polynomial</exception>
+	void Update(const std::vector<uint8_t> &Polynomial);
+
 	//~~~Static Functions~~~//
 
 	/// <summary>
diff --git a/CEX/XMSS.cpp b/CEX/XMSS.cpp
index 5c0b00a..bae00bd 100644
--- a/CEX/XMSS.cpp
+++ b/CEX/XMSS.cpp
@@ -288,7 +288,17 @@ size_t XMSS::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Sig
 
 	size_t slen;
 
-	slen = XMSSCore::Sign(Signature, Message, m_privateKey->Polynomial(), m_xmssState->Parameters);
+	std::vector<uint8_t> sk = m_privateKey->Polynomial();
+
+	if (XMSSCore::IsUsedUp(sk, m_xmssState->Parameters))
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The one-time keys of this private key have all been used!"), ErrorCodes::MaxExceeded);
+	}
+
+	slen = XMSSCore::Sign(Signature, Message, sk, m_xmssState->Parameters);
+
+	// the key moves on to the next one-time key
+	m_privateKey->Update(sk);
 
 	return slen;
 }
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 3661694..d0c627f 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1451,27 +1451,49 @@ void XMSSCore::Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &P
 	}
 }
 
-size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+bool XMSSCore::IsUsedUp(const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
+{
+	XmssParams params;
+	uint32_t oid;
+
+	oid = XMSSUtils::ToOid(Parameters);
+
+	if (XMSSUtils::IsXMSS(Parameters))
+	{
+		XmssParseOid(params, oid);
+	}
+	else
+	{
+		XmssMtParseOid(params, oid);
+	}
+
+	std::vector<uint8_t> idx(params.IndexSize);
+	MemoryTools::Copy(PrivateKey, XMSS_OID_LEN, idx, 0, idx.size());
+
+	// the last index is the mark of a key that is used up
+	return (BytesToUll(idx, idx.size()) == (1ULL << params.FullHeight) - 1);
+}
+
+size_t XMSSCore::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters)
 {
 	size_t smlen(0);
 	uint32_t oid;
 
 	oid = XMSSUtils::ToOid(Parameters);
-	std::vector<uint8_t> sk2 = PrivateKey;
 
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
 		XmssParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssSign(sk2, Signature, smlen, Message, Message.size());
+		XmssSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 	else
 	{
 		XmssParams params;
 		XmssMtParseOid(params, oid);
 		Signature.resize(params.SignatureSize + Message.size());
-		XmssMtSign(sk2, Signature, smlen, Message, Message.size());
+		XmssMtSign(PrivateKey, Signature, smlen, Message, Message.size());
 	}
 
 	return smlen;
diff --git a/CEX/XmssCore.h b/CEX/XmssCore.h
index 888e6d1..2c691b3 100644
--- a/CEX/XmssCore.h
+++ b/CEX/XmssCore.h
@@ -180,7 +180,9 @@ public:
 
 	static void Generate(std::vector<uint8_t> &PublicKey, std::vector<uint8_t> &PrivateKey, std::unique_ptr<Prng::IPrng> &Rng, XmssParameters Parameters);
 
-	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+	static bool IsUsedUp(const std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
+
+	static size_t Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t> &Message, std::vector<uint8_t> &PrivateKey, XmssParameters Parameters);
 
 	static bool Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, XmssParameters Parameters);
 };
-- 
2.43.0


From 20079e284f8e24ed8ac96e0fac2de2e7c6d35e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 075/128] fix: XMSS verified with the parameter set named
 inside of a changed public key

---
 CEX/XmssCore.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index d0c627f..375ab31 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1510,6 +1510,13 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 	res = 0;
 	oid = XMSSUtils::ToOid(Parameters);
 
+	// the identifier in the key must be the one of the parameter set
+	if (PublicKey.size() != GetPublicKeySize(Parameters) || BytesToUll(PublicKey, XMSS_OID_LEN) != oid)
+	{
+		Message.resize(0);
+		return false;
+	}
+
 	if (XMSSUtils::IsXMSS(Parameters))
 	{
 		XmssParams params;
-- 
2.43.0


From b2514489347c5316cf7180411b6807900f5544b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 076/128] fix: verifying a truncated signature read beyond it

---
 CEX/Dilithium.cpp | 6 ++++++
 CEX/ECDSABase.cpp | 6 ++++++
 CEX/SPXBase.h     | 6 ++++++
 CEX/XmssCore.cpp  | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/CEX/Dilithium.cpp b/CEX/Dilithium.cpp
index b0ef97a..ee4f9e5 100644
--- a/CEX/Dilithium.cpp
+++ b/CEX/Dilithium.cpp
@@ -341,6 +341,12 @@ bool Dilithium::Verify(const std::vector<uint8_t> &Signature, std::vector<uint8_
 		throw CryptoAsymmetricException(Name(), std::string("Sign"), std::string("The signature scheme is not initialized for verification!"), ErrorCodes::NotInitialized);
 	}
 
+	if (Signature.size() < SignatureSize())
+	{
+		Message.resize(0);
+		return false;
+	}
+
 	switch (m_dilithiumState->Parameters)
 	{
 		case DilithiumParameters::DLTMS1P2544:
diff --git a/CEX/ECDSABase.cpp b/CEX/ECDSABase.cpp
index 83f3287..de624ae 100644
--- a/CEX/ECDSABase.cpp
+++ b/CEX/ECDSABase.cpp
@@ -131,6 +131,12 @@ bool ECDSABase::Sign(std::vector<uint8_t> &Signature, const std::vector<uint8_t>
 
 bool ECDSABase::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey, std::unique_ptr<IDigest> &Digest)
 {
+	if (Signature.size() < EC25519::EC25519_SIGNATURE_SIZE)
+	{
+		MemoryTools::Clear(Message, 0, Message.size());
+		return false;
+	}
+
 	const size_t MSGLEN = Signature.size() - EC25519::EC25519_SIGNATURE_SIZE;
 	std::vector<uint8_t> tmpm(MSGLEN);
 	bool res;
diff --git a/CEX/SPXBase.h b/CEX/SPXBase.h
index be32fae..d7bf7ce 100644
--- a/CEX/SPXBase.h
+++ b/CEX/SPXBase.h
@@ -861,6 +861,12 @@ public:
 	static bool Verify(T &Params, std::vector<uint8_t> &Message, const std::vector<uint8_t> &Signature, const std::vector<uint8_t> &PublicKey)
 	{
 		// verifies a given signature-message pair under a given public key
+		if (Signature.size() < Params.SPX_BYTES)
+		{
+			Message.resize(0);
+			return false;
+		}
+
 		const size_t MSGLEN = Signature.size() - Params.SPX_BYTES;
 		std::vector<uint8_t> buf(Params.SPX_N + SPX_ADDR_BYTES + Params.SPX_WOTS_LEN * Params.SPX_N);
 		std::vector<uint8_t> leaf(Params.SPX_N);
diff --git a/CEX/XmssCore.cpp b/CEX/XmssCore.cpp
index 375ab31..e7a2459 100644
--- a/CEX/XmssCore.cpp
+++ b/CEX/XmssCore.cpp
@@ -1510,6 +1510,12 @@ bool XMSSCore::Verify(std::vector<uint8_t> &Message, const std::vector<uint8_t>
 	res = 0;
 	oid = XMSSUtils::ToOid(Parameters);
 
+	if (Signature.size() < GetSignatureSize(Parameters))
+	{
+		Message.resize(0);
+		return false;
+	}
+
 	// the identifier in the key must be the one of the parameter set
 	if (PublicKey.size() != GetPublicKeySize(Parameters) || BytesToUll(PublicKey, XMSS_OID_LEN) != oid)
 	{
-- 
2.43.0


From 1d4eb63f2071a186c57de0fd40ef8e41e23ada4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 077/128] fix: ECDSA refused to sign with its SHA3 parameter
 set

---
 CEX/ECDSA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index daf8016..fedae79 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -230,6 +230,7 @@ size_t ECDSA::Sign(const std::vector<uint8_t> &Message, std::vector<uint8_t> &Si
 
 	switch (m_ecdsaState->Parameters)
 	{
+		case ECDSAParameters::ECDSAS1P25519K:
 		case ECDSAParameters::ECDSAS2P25519S:
 		{
 			Signature.resize(SignatureSize() + Message.size());
-- 
2.43.0


From 18ef8bbd044fe8185e1d8cbdfc088faaa6257ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:28 +0000
Subject: [PATCH 078/128] fix: ECDSA kept the digest of its first parameter set
 when initialized with a key of the other

---
 CEX/ECDSA.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/ECDSA.cpp b/CEX/ECDSA.cpp
index fedae79..f64068c 100644
--- a/CEX/ECDSA.cpp
+++ b/CEX/ECDSA.cpp
@@ -192,6 +192,11 @@ const void ECDSA::Initialize(AsymmetricKey* Key)
 		throw CryptoAsymmetricException(Name(), std::string("Initialize"), std::string("The key type is invalid!"), ErrorCodes::InvalidKey);
 	}
 
+	if (Key->Parameters() != static_cast<AsymmetricParameters>(m_ecdsaState->Parameters))
+	{
+		m_rndDigest.reset(Helper::DigestFromName::GetInstance(static_cast<ECDSAParameters>(Key->Parameters()) == ECDSAParameters::ECDSAS1P25519K ? Enumeration::Digests::SHA3512 : Enumeration::Digests::SHA2512));
+	}
+
 	if (Key->KeyClass() == AsymmetricKeyTypes::SignaturePublicKey)
 	{
 		m_publicKey = Key;
-- 
2.43.0


From eee5952273b9a987c28d9cd2220199f414ffc57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:10 +0000
Subject: [PATCH 079/128] fix: McEliece returned a key pair without its public
 key when the permutation had duplicates

---
 CEX/MPKCN4608T96.cpp  | 4 ++--
 CEX/MPKCN6688T128.cpp | 4 ++--
 CEX/MPKCN6960T119.cpp | 4 ++--
 CEX/MPKCN8192T128.cpp | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/CEX/MPKCN4608T96.cpp b/CEX/MPKCN4608T96.cpp
index 91cc38e..08d7ddd 100644
--- a/CEX/MPKCN4608T96.cpp
+++ b/CEX/MPKCN4608T96.cpp
@@ -460,9 +460,9 @@ int32_t MPKCN4608T96::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Perm
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N4608T96_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N4608T96_PK_ROW_BYTES, MCELIECE_N4608T96_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N4608T96_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6688T128.cpp b/CEX/MPKCN6688T128.cpp
index a01201b..cccadcc 100644
--- a/CEX/MPKCN6688T128.cpp
+++ b/CEX/MPKCN6688T128.cpp
@@ -460,9 +460,9 @@ int32_t MPKCN6688T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N6688T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N6688T128_PK_ROW_BYTES, MCELIECE_N6688T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6688T128_PK_NROWS; ++i)
diff --git a/CEX/MPKCN6960T119.cpp b/CEX/MPKCN6960T119.cpp
index 64abac5..0a01ee5 100644
--- a/CEX/MPKCN6960T119.cpp
+++ b/CEX/MPKCN6960T119.cpp
@@ -513,9 +513,9 @@ int32_t MPKCN6960T119::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 					*pk_ptr = (mat[i][j] >> tail);
 					++pk_ptr;
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N6960T119_PK_NROWS; ++i)
diff --git a/CEX/MPKCN8192T128.cpp b/CEX/MPKCN8192T128.cpp
index 8d82b09..9c72ddc 100644
--- a/CEX/MPKCN8192T128.cpp
+++ b/CEX/MPKCN8192T128.cpp
@@ -435,9 +435,9 @@ int32_t MPKCN8192T128::PkGen(uint8_t* Pk, const uint8_t* Sk, const uint32_t* Per
 				{
 					MemoryTools::CopyRaw((uint8_t*)mat[i] + MCELIECE_N8192T128_PK_NROWS / 8, (uint8_t*)Pk + i * MCELIECE_N8192T128_PK_ROW_BYTES, MCELIECE_N8192T128_PK_ROW_BYTES);
 				}
-			}
 
-			res = 0;
+				res = 0;
+			}
 		}
 
 		for (i = 0; i < MCELIECE_N8192T128_PK_NROWS; ++i)
-- 
2.43.0


From 0c6530d860ad4296021af201bc2708f7af3704a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 080/128] fix: Kyber and McEliece dereferenced a missing key
 when used uninitialized or in the other direction

---
 CEX/Kyber.cpp    | 19 ++++++++++++++++++-
 CEX/McEliece.cpp | 19 +++++++++++++++++--
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 1a46250..4012a5d 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -255,6 +255,15 @@ const size_t Kyber::SharedSecretSize()
 
 bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
+	if (!m_kyberState->Initialized)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (m_kyberState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher is not initialized for decryption!"), ErrorCodes::IllegalOperation);
+	}
+
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
 
@@ -309,7 +318,15 @@ bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint
 
 void Kyber::Encapsulate(std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
-	CEXASSERT(m_kyberState->Initialized, "The cipher has not been initialized");
+	if (!m_kyberState->Initialized)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (!m_kyberState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher is not initialized for encryption!"), ErrorCodes::IllegalOperation);
+	}
+
 	CEXASSERT(SharedSecret.size() <= 256, "The shared secret size is too large");
 
 	std::vector<uint8_t> sec(SECRET_SIZE);
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 91d9b2f..ae600dc 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -258,7 +258,14 @@ const size_t McEliece::SharedSecretSize()
 
 bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
-	CEXASSERT(m_mpkcState->Initialized, "The cipher has not been initialized");
+	if (!m_mpkcState->Initialized)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (m_mpkcState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher is not initialized for decryption!"), ErrorCodes::IllegalOperation);
+	}
 
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
@@ -311,7 +318,15 @@ bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<u
 
 void McEliece::Encapsulate(std::vector<uint8_t> &CipherText, std::vector<uint8_t> &SharedSecret)
 {
-	CEXASSERT(m_mpkcState->Initialized, "The cipher has not been initialized");
+	if (!m_mpkcState->Initialized)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (!m_mpkcState->Encryption)
+	{
+		throw CryptoAsymmetricException(Name(), std::string("Encapsulate"), std::string("The cipher is not initialized for encryption!"), ErrorCodes::IllegalOperation);
+	}
+
 	CEXASSERT(SharedSecret.size() <= 256, "The shared secret size is too large");
 
 	std::vector<uint8_t> sec(SECRET_SIZE);
-- 
2.43.0


From c9a3b95776db54f330838b5a1b81e4cdb3796090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 081/128] fix: Kyber and McEliece read beyond a truncated
 cipher-text and ignored bytes added to one

---
 CEX/Kyber.cpp    | 4 ++++
 CEX/McEliece.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 4012a5d..5b9452f 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -263,6 +263,10 @@ bool Kyber::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<uint
 	{
 		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher is not initialized for decryption!"), ErrorCodes::IllegalOperation);
 	}
+	if (CipherText.size() != CipherTextSize())
+	{
+		return false;
+	}
 
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index ae600dc..0a5a7d5 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -266,6 +266,10 @@ bool McEliece::Decapsulate(const std::vector<uint8_t> &CipherText, std::vector<u
 	{
 		throw CryptoAsymmetricException(Name(), std::string("Decapsulate"), std::string("The cipher is not initialized for decryption!"), ErrorCodes::IllegalOperation);
 	}
+	if (CipherText.size() != CipherTextSize())
+	{
+		return false;
+	}
 
 	std::vector<uint8_t> sec(SECRET_SIZE, 0x00);
 	bool res;
-- 
2.43.0


From abd30544ab89d994efeea63c2360cda443bb9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:30 +0000
Subject: [PATCH 082/128] fix: the domain key form of Kyber, McEliece and ECDH
 mixed the iterators of two strings

---
 CEX/ECDH.cpp     | 3 ++-
 CEX/Kyber.cpp    | 3 ++-
 CEX/McEliece.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index f7e573f..023ff5a 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -215,7 +215,8 @@ AsymmetricKeyPair* ECDH::Generate(std::vector<uint8_t> &Seed)
 
 void ECDH::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string name = Name();
+	std::vector<uint8_t> tmpn(name.begin(), name.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/Kyber.cpp b/CEX/Kyber.cpp
index 5b9452f..32488db 100644
--- a/CEX/Kyber.cpp
+++ b/CEX/Kyber.cpp
@@ -464,7 +464,8 @@ void Kyber::Initialize(AsymmetricKey* Key)
 
 void Kyber::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string name = Name();
+	std::vector<uint8_t> tmpn(name.begin(), name.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
diff --git a/CEX/McEliece.cpp b/CEX/McEliece.cpp
index 0a5a7d5..b1e59ae 100644
--- a/CEX/McEliece.cpp
+++ b/CEX/McEliece.cpp
@@ -485,7 +485,8 @@ void McEliece::Initialize(AsymmetricKey* Key)
 
 void McEliece::CXOF(const std::vector<uint8_t> &Domain, const std::vector<uint8_t> &Key, std::vector<uint8_t> &Secret, size_t Rate)
 {
-	std::vector<uint8_t> tmpn(Name().begin(), Name().end());
+	const std::string name = Name();
+	std::vector<uint8_t> tmpn(name.begin(), name.end());
 	Keccak::CXOFP1600(Key, Domain, tmpn, Secret, 0, Secret.size(), Rate);
 }
 
-- 
2.43.0


From 8f1e6a13511f079fa9111ad80ca85783d78fae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:29 +0000
Subject: [PATCH 083/128] fix: ECDH read beyond a truncated public key

---
 CEX/ECDH.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/ECDH.cpp b/CEX/ECDH.cpp
index 023ff5a..69321df 100644
--- a/CEX/ECDH.cpp
+++ b/CEX/ECDH.cpp
@@ -162,6 +162,11 @@ bool ECDH::KeyExchange(AsymmetricKey* PublicKey, AsymmetricKey* PrivateKey, std:
 	std::vector<uint8_t> sec(EC25519::EC25519_SECRET_SIZE);
 	bool res;
 
+	if (PublicKey->Polynomial().size() != EC25519::EC25519_PUBLICKEY_SIZE || PrivateKey->Polynomial().size() != EC25519::EC25519_PRIVATEKEY_SIZE)
+	{
+		return false;
+	}
+
 	res = ECDHBase::Ed25519KeyExchange(sec, PublicKey->Polynomial(), PrivateKey->Polynomial());
 
 	if (res == true)
-- 
2.43.0


From 960f7a25a1e8f6478df74b55e8e0430e2efd51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:03 +0000
Subject: [PATCH 084/128] fix: asymmetric keys sealed under an authenticated
 policy came back longer than they were

---
 CEX/AsymmetricSecureKey.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/CEX/AsymmetricSecureKey.cpp b/CEX/AsymmetricSecureKey.cpp
index 32cf35c..dab1a89 100644
--- a/CEX/AsymmetricSecureKey.cpp
+++ b/CEX/AsymmetricSecureKey.cpp
@@ -38,6 +38,7 @@ public:
 	AsymmetricKeyTypes KeyClass;
 	AsymmetricParameters Parameters;
 	SecurityPolicy Policy;
+	size_t Size;
 
 	AsymmetricSecureKeyState()
 		:
@@ -46,6 +47,7 @@ public:
 		KeyClass(AsymmetricKeyTypes::None),
 		Parameters(AsymmetricParameters::None),
 		Policy(SecurityPolicy::None),
+		Size(0),
 		Primitive(AsymmetricPrimitives::None)
 	{
 	}
@@ -57,7 +59,8 @@ public:
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
-		Policy(PolicyType)
+		Policy(PolicyType),
+		Size(Coefficients.size())
 	{
 	}
 
@@ -68,7 +71,8 @@ public:
 		KeyClass(KeyClass),
 		Primitive(PrimitiveType),
 		Parameters(ParameterType),
-		Policy(PolicyType)
+		Policy(PolicyType),
+		Size(Coefficients.size())
 	{
 	}
 
@@ -84,6 +88,7 @@ public:
 		KeyClass = AsymmetricKeyTypes::None;
 		Parameters = AsymmetricParameters::None;
 		Policy = SecurityPolicy::None;
+		Size = 0;
 		Primitive = AsymmetricPrimitives::None;
 	}
 };
@@ -132,12 +137,12 @@ const AsymmetricParameters AsymmetricSecureKey::Parameters()
 
 const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 {
-	SecureVector<uint8_t> tmps(m_secureState->Polynomial.size());
+	SecureVector<uint8_t> tmps(m_secureState->Size);
 
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, tmps, m_secureState->Polynomial.size());
+		Extract(m_secureState, tmps, m_secureState->Size);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -149,7 +154,7 @@ const std::vector<uint8_t> AsymmetricSecureKey::Polynomial()
 
 const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 {
-	if (Output.size() < m_secureState->Polynomial.size())
+	if (Output.size() < m_secureState->Size)
 	{
 		throw CryptoAsymmetricException(CLASS_NAME, std::string("SecurePolynomial"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -157,7 +162,7 @@ const void AsymmetricSecureKey::SecurePolynomial(SecureVector<uint8_t> &Output)
 	// if the state policy has been set to authenticated mode, this will throw on authentication failure
 	try
 	{
-		Extract(m_secureState, Output, m_secureState->Polynomial.size());
+		Extract(m_secureState, Output, m_secureState->Size);
 	}
 	catch (CryptoAuthenticationFailure &ex)
 	{
@@ -197,7 +202,7 @@ SecureVector<uint8_t> AsymmetricSecureKey::Serialize(AsymmetricSecureKey &KeyPar
 
 void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &State)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
 	std::vector<uint8_t> tmpt(0);
@@ -228,7 +233,12 @@ void AsymmetricSecureKey::Encipher(std::unique_ptr<AsymmetricSecureKeyState> &St
 
 void AsymmetricSecureKey::Extract(std::unique_ptr<AsymmetricSecureKeyState> &State, SecureVector<uint8_t> &Output, size_t Length)
 {
-	IStreamCipher* cpr = GetStreamCipher(State->Policy);
+	if (Length == 0)
+	{
+		return;
+	}
+
+	std::unique_ptr<IStreamCipher> cpr(GetStreamCipher(State->Policy));
 	const size_t CPTSZE = cpr->IsAuthenticator() ? State->Polynomial.size() - cpr->TagSize() : State->Polynomial.size();
 	SymmetricKeySize ksc = cpr->LegalKeySizes()[0];
 	SecureVector<uint8_t> seed(ksc.KeySize() + ksc.IVSize());
-- 
2.43.0


From 240f57f866cbda04a26d7f05b6fe78f09fcd83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:03 +0000
Subject: [PATCH 085/128] fix: AsymmetricKey read beyond a stream shorter than
 its header

---
 CEX/AsymmetricKey.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/AsymmetricKey.cpp b/CEX/AsymmetricKey.cpp
index da6f85b..23fa7ee 100644
--- a/CEX/AsymmetricKey.cpp
+++ b/CEX/AsymmetricKey.cpp
@@ -143,6 +143,11 @@ void AsymmetricKey::Update(const std::vector<uint8_t> &Polynomial)
 
 AsymmetricKey* AsymmetricKey::DeSerialize(SecureVector<uint8_t> &KeyStream)
 {
+	if (KeyStream.size() < 3)
+	{
+		throw CryptoAsymmetricException(CLASS_NAME, std::string("DeSerialize"), std::string("The key stream is too short!"), ErrorCodes::InvalidParam);
+	}
+
 	AsymmetricKey* tmpk = new AsymmetricKey(SecureVector<uint8_t>(KeyStream.begin() + 3, KeyStream.end()), 
 		static_cast<AsymmetricPrimitives>(KeyStream[2]),
 		static_cast<AsymmetricKeyTypes>(KeyStream[0]),
-- 
2.43.0


From 7c149faf5e63ab73c3483a23b65d282b8c5f448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:24 +0000
Subject: [PATCH 086/128] fix: CipherStream left out a message of exactly one
 block

---
 CEX/CipherStream.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 7ff85e7..481c256 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -198,16 +198,13 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	const size_t BLKLEN = m_cipherEngine->BlockSize();
 	const size_t ALNLEN = (m_cipherState->CounterMode || m_cipherState->Encryption) ? (INPLEN / BLKLEN) * BLKLEN : (INPLEN < BLKLEN) ? 0 : ((INPLEN / BLKLEN) * BLKLEN) - BLKLEN;
 
-	if (INPLEN > BLKLEN)
+	while (plen != ALNLEN)
 	{
-		while (plen != ALNLEN)
-		{
-			m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, BLKLEN);
-			InOffset += BLKLEN;
-			OutOffset += BLKLEN;
-			plen += BLKLEN;
-			CalculateProgress(INPLEN, InOffset);
-		}
+		m_cipherEngine->Transform(Input, InOffset, Output, OutOffset, BLKLEN);
+		InOffset += BLKLEN;
+		OutOffset += BLKLEN;
+		plen += BLKLEN;
+		CalculateProgress(INPLEN, InOffset);
 	}
 
 	// partial
@@ -295,16 +292,13 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	inp.resize(BLKLEN);
 	otp.resize(BLKLEN);
 
-	if (INPLEN > BLKLEN)
+	while (plen != ALNLEN)
 	{
-		while (plen != ALNLEN)
-		{
-			pread = InStream->Read(inp, 0, BLKLEN);
-			m_cipherEngine->Transform(inp, 0, otp, 0, pread);
-			OutStream->Write(otp, 0, pread);
-			plen += pread;
-			CalculateProgress(INPLEN, OutStream->Position());
-		}
+		pread = InStream->Read(inp, 0, BLKLEN);
+		m_cipherEngine->Transform(inp, 0, otp, 0, pread);
+		OutStream->Write(otp, 0, pread);
+		plen += pread;
+		CalculateProgress(INPLEN, OutStream->Position());
 	}
 
 	// partial
-- 
2.43.0


From 3a738ee4ca6ca20825f74eaca939760d8bf5b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:24 +0000
Subject: [PATCH 087/128] fix: CipherStream ignored the output offset when
 sizing the output array

---
 CEX/CipherStream.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 481c256..e746e89 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -231,9 +231,9 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			}
 			plen += BLKLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OutOffset + BLKLEN)
 			{
-				Output.resize(plen);
+				Output.resize(OutOffset + BLKLEN);
 			}
 
 			m_cipherEngine->EncryptBlock(inp, 0, Output, OutOffset);
@@ -243,12 +243,16 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 			std::vector<uint8_t> otp(BLKLEN);
 			m_cipherEngine->DecryptBlock(Input, InOffset, otp, 0);
 			const size_t FNLLEN = m_cipherPadding->GetBlockLength(otp);
-			MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 			plen += FNLLEN;
 
-			if (Output.size() != plen)
+			if (Output.size() != OutOffset + FNLLEN)
+			{
+				Output.resize(OutOffset + FNLLEN);
+			}
+
+			if (FNLLEN != 0)
 			{
-				Output.resize(plen);
+				MemoryTools::Copy(otp, 0, Output, OutOffset, FNLLEN);
 			}
 		}
 	}
-- 
2.43.0


From c74e8abf83e56603e32f7d95c48f0a0265da283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:24 +0000
Subject: [PATCH 088/128] fix: CipherStream did not pad aligned messages, so
 that decryption could cut them short

---
 CEX/CipherStream.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index e746e89..588f6c3 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -208,7 +208,7 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 	}
 
 	// partial
-	if (ALNLEN != INPLEN)
+	if (ALNLEN != INPLEN || !m_cipherState->CounterMode)
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -222,13 +222,14 @@ void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOf
 		}
 		else if (m_cipherState->Encryption)
 		{
+			// an aligned message is followed by a block of padding, so that the padding can always be recognized
 			const size_t FNLLEN = INPLEN - ALNLEN;
 			std::vector<uint8_t> inp(BLKLEN);
-			MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
+			if (FNLLEN != 0)
 			{
-				m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
+				MemoryTools::Copy(Input, InOffset, inp, 0, FNLLEN);
 			}
+			m_cipherPadding->AddPadding(inp, FNLLEN, inp.size());
 			plen += BLKLEN;
 
 			if (Output.size() != OutOffset + BLKLEN)
@@ -306,7 +307,7 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 	}
 
 	// partial
-	if (ALNLEN != INPLEN)
+	if (ALNLEN != INPLEN || !m_cipherState->CounterMode)
 	{
 		if (m_cipherState->CounterMode)
 		{
@@ -320,11 +321,8 @@ void CipherStream::BlockTransform(IByteStream* InStream, IByteStream* OutStream)
 		else if (m_cipherState->Encryption)
 		{
 			const size_t FNLLEN = INPLEN - ALNLEN;
-			pread = InStream->Read(inp, 0, FNLLEN);
-			if (FNLLEN != BLKLEN)
-			{
-				m_cipherPadding->AddPadding(inp, pread, inp.size());
-			}
+			pread = FNLLEN != 0 ? InStream->Read(inp, 0, FNLLEN) : 0;
+			m_cipherPadding->AddPadding(inp, pread, inp.size());
 			m_cipherEngine->EncryptBlock(inp, 0, otp, 0);
 			OutStream->Write(otp, 0, BLKLEN);
 		}
-- 
2.43.0


From 05bfc72bcb0d8d983b0788c7c43b4027cd9d54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:24 +0000
Subject: [PATCH 089/128] fix: CipherStream had no padding in ECB mode, and
 none in place of a null padding instance

---
 CEX/CipherStream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 588f6c3..ba73316 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -52,7 +52,7 @@ CipherStream::CipherStream(BlockCiphers CipherType, CipherModes CipherModeType,
 	m_cipherState(new CipherState((CipherModeType == CipherModes::CTR || CipherModeType == CipherModes::ICM), true)),
 	m_cipherEngine(CipherModeType != CipherModes::None && CipherType != BlockCiphers::None ? GetCipherMode(CipherType, CipherModeType) :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(CipherModeType == CipherModes::CBC || CipherModeType == CipherModes::CFB || CipherModeType == CipherModes::OFB ? GetPaddingMode(PaddingType) : nullptr),
+	m_cipherPadding(CipherModeType != CipherModes::CTR && CipherModeType != CipherModes::ICM ? GetPaddingMode(PaddingType) : nullptr),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -62,7 +62,7 @@ CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	m_cipherState(new CipherState(((Cipher != nullptr && (Cipher->Enumeral() == CipherModes::CTR || Cipher->Enumeral() == CipherModes::ICM)) ? true : false), false)),
 	m_cipherEngine(Cipher != nullptr ? Cipher :
 		throw CryptoProcessingException(CLASS_NAME, std::string("Constructor"), std::string("Digest type can not be none!"), ErrorCodes::IllegalOperation)),
-	m_cipherPadding(Padding),
+	m_cipherPadding(Padding != nullptr || m_cipherState->CounterMode ? Padding : GetPaddingMode(PaddingModes::X923)),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
 }
@@ -383,7 +383,7 @@ ICipherMode* CipherStream::GetCipherMode(BlockCiphers CipherType, CipherModes Ci
 
 IPadding* CipherStream::GetPaddingMode(PaddingModes PaddingType)
 {
-	return Helper::PaddingFromName::GetInstance(PaddingType);
+	return Helper::PaddingFromName::GetInstance(PaddingType != PaddingModes::None ? PaddingType : PaddingModes::X923);
 }
 
 NAMESPACE_PROCESSINGEND
-- 
2.43.0


From 66f3f5748b8e3f47053343bbfd0a07dc47c93b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 090/128] fix: CipherStream and MacStream destroyed the
 caller's cipher and mac instances

---
 CEX/CipherStream.cpp | 20 +++++++++++++++-----
 CEX/MacStream.cpp    |  5 +++++
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index ba73316..66884c6 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -21,6 +21,7 @@ public:
 	bool CounterMode;
 	bool Encryption;
 	bool Initialized;
+	bool OwnPadding;
 
 	CipherState(bool IsCounter, bool Destroyed)
 		:
@@ -28,7 +29,8 @@ public:
 		Buffered(false),
 		CounterMode(IsCounter),
 		Encryption(false),
-		Initialized(false)
+		Initialized(false),
+		OwnPadding(Destroyed)
 	{
 
 	}
@@ -40,6 +42,7 @@ public:
 		CounterMode = false;
 		Encryption = false;
 		Initialized = false;
+		OwnPadding = false;
 	}
 };
 
@@ -65,6 +68,7 @@ CipherStream::CipherStream(ICipherMode* Cipher, IPadding* Padding)
 	m_cipherPadding(Padding != nullptr || m_cipherState->CounterMode ? Padding : GetPaddingMode(PaddingModes::X923)),
 	m_legalKeySizes(m_cipherEngine->LegalKeySizes())
 {
+	m_cipherState->OwnPadding = (Padding == nullptr);
 }
 
 CipherStream::~CipherStream()
@@ -75,10 +79,16 @@ CipherStream::~CipherStream()
 		{
 			m_cipherEngine.reset(nullptr);
 		}
-		if (m_cipherPadding != nullptr)
-		{
-			m_cipherPadding.reset(nullptr);
-		}
+	}
+	else
+	{
+		// the instance belongs to the caller
+		m_cipherEngine.release();
+	}
+
+	if (!m_cipherState->OwnPadding)
+	{
+		m_cipherPadding.release();
 	}
 
 	IntegerTools::Clear(m_legalKeySizes);
diff --git a/CEX/MacStream.cpp b/CEX/MacStream.cpp
index 861cbb8..324f868 100644
--- a/CEX/MacStream.cpp
+++ b/CEX/MacStream.cpp
@@ -61,6 +61,11 @@ MacStream::~MacStream()
 			m_macEngine.reset(nullptr);
 		}
 	}
+	else
+	{
+		// the instance belongs to the caller
+		m_macEngine.release();
+	}
 }
 
 //~~~Accessors~~~//
-- 
2.43.0


From df503846d48acf0746419bae5873aeed886d4861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 091/128] fix: CipherStream Write did not refuse an
 uninitialized cipher, empty or misaligned input, or a short output

---
 CEX/CipherStream.cpp | 34 +++++++++++++++++++++++++++++-----
 CEX/CipherStream.h   |  1 +
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/CEX/CipherStream.cpp b/CEX/CipherStream.cpp
index 66884c6..a46f0e2 100644
--- a/CEX/CipherStream.cpp
+++ b/CEX/CipherStream.cpp
@@ -156,11 +156,10 @@ void CipherStream::ParallelMaxDegree(size_t Degree)
 
 void CipherStream::Write(IByteStream* InStream, IByteStream* OutStream)
 {
-	CEXASSERT(m_cipherState->Initialized, "The cipher has not been initialized");
-	CEXASSERT(InStream->Length() - InStream->Position() > 0, "The Input stream is too int16_t");
 	CEXASSERT(InStream->CanRead(), "The Input stream is set to write only!");
 	CEXASSERT(OutStream->CanRead() || OutStream->CanWrite(), "The Output stream is to read only!");
 
+	CheckLength(InStream->Position() < InStream->Length() ? static_cast<size_t>(InStream->Length() - InStream->Position()) : 0);
 	BlockTransform(InStream, OutStream);
 
 	if (OutStream->Position() != OutStream->Length())
@@ -171,15 +170,40 @@ void CipherStream::Write(IByteStream* InStream, IByteStream* OutStream)
 
 void CipherStream::Write(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	CEXASSERT(m_cipherState->Initialized, "The cipher has not been initialized");
-	CEXASSERT(Input.size() - InOffset > 0, "The input array is too int16_t");
-	CEXASSERT(Input.size() - InOffset <= Output.size() - OutOffset, "The output array is too int16_t!");
+	const size_t INPLEN = InOffset < Input.size() ? Input.size() - InOffset : 0;
+
+	CheckLength(INPLEN);
+
+	// the final block of a padded message is given its space
+	const size_t BLKLEN = m_cipherEngine->BlockSize();
+	const size_t OTPLEN = m_cipherState->CounterMode ? INPLEN : m_cipherState->Encryption ? INPLEN - (INPLEN % BLKLEN) : INPLEN - BLKLEN;
+
+	if (OutOffset > Output.size() || OTPLEN > Output.size() - OutOffset)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The output array is too short!"), ErrorCodes::InvalidSize);
+	}
 
 	BlockTransform(Input, InOffset, Output, OutOffset);
 }
 
 //~~~Private Functions~~~//
 
+void CipherStream::CheckLength(size_t Length)
+{
+	if (!m_cipherState->Initialized)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+	if (Length == 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The input is empty!"), ErrorCodes::InvalidSize);
+	}
+	if (!m_cipherState->CounterMode && !m_cipherState->Encryption && Length % m_cipherEngine->BlockSize() != 0)
+	{
+		throw CryptoProcessingException(CLASS_NAME, std::string("Write"), std::string("The cipher-text is not a whole number of blocks!"), ErrorCodes::InvalidSize);
+	}
+}
+
 void CipherStream::BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset)
 {
 	const size_t INPLEN = Input.size() - InOffset;
diff --git a/CEX/CipherStream.h b/CEX/CipherStream.h
index 8e34bc7..6f3ace5 100644
--- a/CEX/CipherStream.h
+++ b/CEX/CipherStream.h
@@ -266,6 +266,7 @@ public:
 
 private:
 
+	void CheckLength(size_t Length);
 	void BlockTransform(const std::vector<uint8_t> &Input, size_t InOffset, std::vector<uint8_t> &Output, size_t OutOffset);
 	void BlockTransform(IByteStream* InStream, IByteStream* OutStream);
 	void CalculateProgress(size_t Length, size_t Processed);
-- 
2.43.0


From e0968a1d0d0a38c395bb5e6629150696f25b40a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 092/128] fix: the MACs did not refuse an offset beyond the end
 of the array

---
 CEX/CMAC.cpp     | 4 ++--
 CEX/GMAC.cpp     | 4 ++--
 CEX/HMAC.cpp     | 4 ++--
 CEX/KMAC.cpp     | 4 ++--
 CEX/KPA.cpp      | 4 ++--
 CEX/Poly1305.cpp | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index 84ca687..c0617ab 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -167,7 +167,7 @@ size_t CMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -261,7 +261,7 @@ void CMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 3463842..41426c5 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -171,7 +171,7 @@ size_t GMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -280,7 +280,7 @@ void GMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index ae456cc..23c6693 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -173,7 +173,7 @@ size_t HMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -257,7 +257,7 @@ void HMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index 2892f6b..11a142d 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -150,7 +150,7 @@ size_t KMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -249,7 +249,7 @@ void KMAC::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t Len
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index c8b9f56..6e7bef8 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -181,7 +181,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Output.size() - OutOffset) < TagSize())
+		if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 		{
 			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
@@ -465,7 +465,7 @@ KPA::KPA(KpaModes KbaModeType)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 		}
-		if ((Input.size() - InOffset) < Length)
+		if (InOffset > Input.size() || Input.size() - InOffset < Length)
 		{
 			throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 		}
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index 1d5f692..e1ba16f 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -103,7 +103,7 @@ size_t Poly1305::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < TagSize())
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
 	{
 		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -233,7 +233,7 @@ void Poly1305::Update(const std::vector<uint8_t> &Input, size_t InOffset, size_t
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The MAC has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if ((Input.size() - InOffset) < Length)
+	if (InOffset > Input.size() || Input.size() - InOffset < Length)
 	{
 		throw CryptoMacException(Name(), std::string("Update"), std::string("The Input buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 86510ddd876b4c49cedb4e00ac43544881a6437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 093/128] fix: the KDFs did not refuse an output offset beyond
 the end of the array

---
 CEX/HKDF.cpp   | 4 ++--
 CEX/KDF2.cpp   | 4 ++--
 CEX/PBKDF2.cpp | 4 ++--
 CEX/SCBKDF.cpp | 4 ++--
 CEX/SHAKE.cpp  | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 0c7b88f..3fb78f6 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -201,7 +201,7 @@ void HKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -219,7 +219,7 @@ void HKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index ad7b332..09e6188 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -162,7 +162,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -180,7 +180,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index f176324..c4e2ba7 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -168,7 +168,7 @@ void PBKDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -186,7 +186,7 @@ void PBKDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SCBKDF.cpp b/CEX/SCBKDF.cpp
index 6303c1b..2343261 100644
--- a/CEX/SCBKDF.cpp
+++ b/CEX/SCBKDF.cpp
@@ -131,7 +131,7 @@ void SCBKDF::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -146,7 +146,7 @@ void SCBKDF::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Le
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHAKE.cpp b/CEX/SHAKE.cpp
index 0cc36ea..144af57 100644
--- a/CEX/SHAKE.cpp
+++ b/CEX/SHAKE.cpp
@@ -130,7 +130,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output)
 
 void SHAKE::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
@@ -147,7 +147,7 @@ void SHAKE::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Len
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (Output.size() - OutOffset < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The output buffer is too int16_t!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 381ca0f3de9a747f7d9cbec863084b5517023aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 094/128] fix: the DRBGs did not refuse an output offset beyond
 the end of the array

---
 CEX/BCG.cpp | 4 ++--
 CEX/CSG.cpp | 4 ++--
 CEX/HCG.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index f4a56c4..e3bc6b3 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -198,7 +198,7 @@ void BCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -244,7 +244,7 @@ void BCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index ec631e1..02ed6a6 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -255,7 +255,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output)
 
 void CSG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -271,7 +271,7 @@ void CSG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 0ef97ce..4bb402a 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -198,7 +198,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The generator must be initialized before use!"), ErrorCodes::NotInitialized);
 	}
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -235,7 +235,7 @@ void HCG::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Length
 
 void HCG::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Length)
 {
-	if ((Output.size() - OutOffset) < Length)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Length)
 	{
 		throw CryptoGeneratorException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From f1f1155bd8f94c8fcac30a03fd27bbcdc4d2a0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 095/128] fix: the digests did not refuse an output offset
 beyond the end of the array

---
 CEX/Blake256.cpp  | 2 +-
 CEX/Blake512.cpp  | 2 +-
 CEX/SHA2256.cpp   | 2 +-
 CEX/SHA2512.cpp   | 2 +-
 CEX/SHA3256.cpp   | 2 +-
 CEX/SHA3512.cpp   | 2 +-
 CEX/Skein1024.cpp | 2 +-
 CEX/Skein256.cpp  | 2 +-
 CEX/Skein512.cpp  | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/CEX/Blake256.cpp b/CEX/Blake256.cpp
index 7b33c5c..d286ff9 100644
--- a/CEX/Blake256.cpp
+++ b/CEX/Blake256.cpp
@@ -163,7 +163,7 @@ void Blake256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Blake::BLAKE256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Blake512.cpp b/CEX/Blake512.cpp
index bc324f0..b97066d 100644
--- a/CEX/Blake512.cpp
+++ b/CEX/Blake512.cpp
@@ -167,7 +167,7 @@ void Blake512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Blake512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Blake::BLAKE512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA2256.cpp b/CEX/SHA2256.cpp
index eeed0b9..e0bae41 100644
--- a/CEX/SHA2256.cpp
+++ b/CEX/SHA2256.cpp
@@ -145,7 +145,7 @@ void SHA2256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < SHA2::SHA2256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA2512.cpp b/CEX/SHA2512.cpp
index 8b36c6c..05933b8 100644
--- a/CEX/SHA2512.cpp
+++ b/CEX/SHA2512.cpp
@@ -148,7 +148,7 @@ void SHA2512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA2512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < SHA2::SHA2512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA3256.cpp b/CEX/SHA3256.cpp
index 2ce4ef9..f250bf0 100644
--- a/CEX/SHA3256.cpp
+++ b/CEX/SHA3256.cpp
@@ -132,7 +132,7 @@ void SHA3256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Keccak::KECCAK256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/SHA3512.cpp b/CEX/SHA3512.cpp
index 430b0eb..4ff7178 100644
--- a/CEX/SHA3512.cpp
+++ b/CEX/SHA3512.cpp
@@ -132,7 +132,7 @@ void SHA3512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &O
 
 void SHA3512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Keccak::KECCAK512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein1024.cpp b/CEX/Skein1024.cpp
index 7bcc807..1576890 100644
--- a/CEX/Skein1024.cpp
+++ b/CEX/Skein1024.cpp
@@ -146,7 +146,7 @@ void Skein1024::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t>
 
 void Skein1024::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN1024_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein256.cpp b/CEX/Skein256.cpp
index c46e84d..c28310b 100644
--- a/CEX/Skein256.cpp
+++ b/CEX/Skein256.cpp
@@ -145,7 +145,7 @@ void Skein256::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein256::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN256_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/Skein512.cpp b/CEX/Skein512.cpp
index 623ea0e..2d670b6 100644
--- a/CEX/Skein512.cpp
+++ b/CEX/Skein512.cpp
@@ -146,7 +146,7 @@ void Skein512::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &
 
 void Skein512::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
-	if (Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
+	if (OutOffset > Output.size() || Output.size() - OutOffset < Skein::SKEIN512_DIGEST_SIZE)
 	{
 		throw CryptoDigestException(Name(), std::string("Finalize"), std::string("The output vector is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From b9990cc0eff053e0fd40bdd85300ab7be57d5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 096/128] fix: the providers and prngs did not refuse an output
 offset beyond the end of the array

---
 CEX/ACP.cpp | 4 ++--
 CEX/BCR.cpp | 4 ++--
 CEX/CJP.cpp | 4 ++--
 CEX/CSP.cpp | 4 ++--
 CEX/CSR.cpp | 4 ++--
 CEX/ECP.cpp | 2 +-
 CEX/HCR.cpp | 4 ++--
 CEX/RDP.cpp | 4 ++--
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/CEX/ACP.cpp b/CEX/ACP.cpp
index f7a6a96..884da0f 100644
--- a/CEX/ACP.cpp
+++ b/CEX/ACP.cpp
@@ -72,7 +72,7 @@ void ACP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -107,7 +107,7 @@ void ACP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/BCR.cpp b/CEX/BCR.cpp
index 6fe0564..feb47fd 100644
--- a/CEX/BCR.cpp
+++ b/CEX/BCR.cpp
@@ -80,7 +80,7 @@ void BCR::Generate(std::vector<uint8_t> &Output)
 
 void BCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -98,7 +98,7 @@ void BCR::Generate(SecureVector<uint8_t> &Output)
 
 void BCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CJP.cpp b/CEX/CJP.cpp
index 79235a3..0bd0b29 100644
--- a/CEX/CJP.cpp
+++ b/CEX/CJP.cpp
@@ -132,7 +132,7 @@ void CJP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -164,7 +164,7 @@ void CJP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSP.cpp b/CEX/CSP.cpp
index 00ef398..65ebb92 100644
--- a/CEX/CSP.cpp
+++ b/CEX/CSP.cpp
@@ -81,7 +81,7 @@ void CSP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -113,7 +113,7 @@ void CSP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/CSR.cpp b/CEX/CSR.cpp
index 66854fa..bf8b880 100644
--- a/CEX/CSR.cpp
+++ b/CEX/CSR.cpp
@@ -81,7 +81,7 @@ void CSR::Generate(std::vector<uint8_t> &Output)
 
 void CSR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -99,7 +99,7 @@ void CSR::Generate(SecureVector<uint8_t> &Output)
 
 void CSR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/ECP.cpp b/CEX/ECP.cpp
index ad990af..d944031 100644
--- a/CEX/ECP.cpp
+++ b/CEX/ECP.cpp
@@ -70,7 +70,7 @@ void ECP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The random provider is not available!"), ErrorCodes::NotFound);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/HCR.cpp b/CEX/HCR.cpp
index c80a3f7..531dd50 100644
--- a/CEX/HCR.cpp
+++ b/CEX/HCR.cpp
@@ -84,7 +84,7 @@ void HCR::Generate(std::vector<uint8_t> &Output)
 
 void HCR::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -102,7 +102,7 @@ void HCR::Generate(SecureVector<uint8_t> &Output)
 
 void HCR::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 {
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
diff --git a/CEX/RDP.cpp b/CEX/RDP.cpp
index 3871d95..3031876 100644
--- a/CEX/RDP.cpp
+++ b/CEX/RDP.cpp
@@ -63,7 +63,7 @@ void RDP::Generate(std::vector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
@@ -103,7 +103,7 @@ void RDP::Generate(SecureVector<uint8_t> &Output, size_t Offset, size_t Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The seed providers maximum output is 64MB per request!"), ErrorCodes::IllegalOperation);
 	}
-	if ((Output.size() - Offset) < Length)
+	if (Offset > Output.size() || Output.size() - Offset < Length)
 	{
 		throw CryptoRandomException(Name(), std::string("Generate"), std::string("The output buffer is too small!"), ErrorCodes::InvalidSize);
 	}
-- 
2.43.0


From 04c6a599a87b06e46b95d0ed7a59bb484b5b8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 097/128] fix: CMAC and GMAC discarded their state before the
 cipher refused an illegal key size

---
 CEX/CMAC.cpp | 4 ++--
 CEX/GMAC.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index c0617ab..d58b354 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -214,9 +214,9 @@ void CMAC::Initialize(ISymmetricKey &Parameters)
 		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
 	}
 #else
-	if (Parameters.KeySizes().KeySize() < MinimumKeySize())
+	if (Parameters.KeySizes().KeySize() < MinimumKeySize() || !SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
-		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be at least MinimumKeySize in length!"), ErrorCodes::InvalidKey);
+		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
 	}
 #endif
 
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index 41426c5..a1ce900 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -204,9 +204,9 @@ void GMAC::Initialize(ISymmetricKey &Parameters)
 		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key or salt size, the key and salt lengths must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
 	}
 #else
-	if (Parameters.KeySizes().KeySize() < MinimumKeySize())
+	if (Parameters.KeySizes().KeySize() < MinimumKeySize() || !SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
-		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be at least MinimumKeySize in length!"), ErrorCodes::InvalidKey);
+		throw CryptoMacException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
 	}
 #endif
 
-- 
2.43.0


From e53d3339bd41a546fa609934cf4016d19908bd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 098/128] fix: the MACs Finalize wrote past the end of a secure
 vector that is too small

---
 CEX/CMAC.cpp     | 5 +++++
 CEX/GMAC.cpp     | 5 +++++
 CEX/HMAC.cpp     | 5 +++++
 CEX/Poly1305.cpp | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/CEX/CMAC.cpp b/CEX/CMAC.cpp
index d58b354..b07cefe 100644
--- a/CEX/CMAC.cpp
+++ b/CEX/CMAC.cpp
@@ -193,6 +193,11 @@ size_t CMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 	Reset();
diff --git a/CEX/GMAC.cpp b/CEX/GMAC.cpp
index a1ce900..16859b6 100644
--- a/CEX/GMAC.cpp
+++ b/CEX/GMAC.cpp
@@ -188,6 +188,11 @@ size_t GMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
diff --git a/CEX/HMAC.cpp b/CEX/HMAC.cpp
index 23c6693..4dca0d5 100644
--- a/CEX/HMAC.cpp
+++ b/CEX/HMAC.cpp
@@ -191,6 +191,11 @@ size_t HMAC::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
diff --git a/CEX/Poly1305.cpp b/CEX/Poly1305.cpp
index e1ba16f..89929cb 100644
--- a/CEX/Poly1305.cpp
+++ b/CEX/Poly1305.cpp
@@ -186,6 +186,11 @@ size_t Poly1305::Finalize(SecureVector<uint8_t> &Output, size_t OutOffset)
 {
 	std::vector<uint8_t> tag(TagSize());
 
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	Finalize(tag, 0);
 	SecureMove(tag, 0, Output, OutOffset, tag.size());
 
-- 
2.43.0


From fdc5a67c7af6ef942c071a55eda50a58bce076e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 099/128] fix: KMAC and KPA Finalize did not refuse an output
 offset beyond the end of the array

---
 CEX/KMAC.cpp | 5 +++++
 CEX/KPA.cpp  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/CEX/KMAC.cpp b/CEX/KMAC.cpp
index 11a142d..ff0c50e 100644
--- a/CEX/KMAC.cpp
+++ b/CEX/KMAC.cpp
@@ -131,6 +131,11 @@ void KMAC::Compute(const std::vector<uint8_t> &Input, std::vector<uint8_t> &Outp
 
 size_t KMAC::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 {
+	if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+	{
+		throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+	}
+
 	SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 	Finalize(tmph, 0);
diff --git a/CEX/KPA.cpp b/CEX/KPA.cpp
index 6e7bef8..5c2472b 100644
--- a/CEX/KPA.cpp
+++ b/CEX/KPA.cpp
@@ -167,6 +167,11 @@ KPA::KPA(KpaModes KbaModeType)
 
 	size_t KPA::Finalize(std::vector<uint8_t> &Output, size_t OutOffset)
 	{
+		if (OutOffset > Output.size() || Output.size() - OutOffset < TagSize())
+		{
+			throw CryptoMacException(Name(), std::string("Finalize"), std::string("The Output buffer is too int16_t!"), ErrorCodes::InvalidSize);
+		}
+
 		SecureVector<uint8_t> tmph(Output.size() - OutOffset);
 
 		Finalize(tmph, 0);
-- 
2.43.0


From c620cd65fd3749b6f246514511cafc7a80489d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 100/128] fix: HKDF, KDF2 and PBKDF2 discarded their state
 before refusing a salt that is too small

---
 CEX/HKDF.cpp   | 10 +++++-----
 CEX/KDF2.cpp   | 10 +++++-----
 CEX/PBKDF2.cpp | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/CEX/HKDF.cpp b/CEX/HKDF.cpp
index 3fb78f6..42d1b4c 100644
--- a/CEX/HKDF.cpp
+++ b/CEX/HKDF.cpp
@@ -234,6 +234,11 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Invalid key size, the key length must be at least MinimumKeySize in length!"), ErrorCodes::InvalidKey);
 	}
 
+	if (Parameters.KeySizes().IVSize() != 0 && Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -249,11 +254,6 @@ void HKDF::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().IVSize() != 0)
 	{
-		if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
-		{
-			throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
-		}
-
 		SecureVector<uint8_t> prk(m_hkdfGenerator->TagSize());
 		Extract(Parameters.SecureKey(), Parameters.SecureIV(), prk);
 		SymmetricKey kp(prk);
diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 09e6188..9a4db06 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -202,6 +202,11 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	if (Parameters.KeySizes().IVSize() != 0 && Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -209,11 +214,6 @@ void KDF2::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().IVSize() != 0)
 	{
-		if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
-		{
-			throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
-		}
-
 		// add the key to state
 		m_kdf2State->State.resize(Parameters.KeySizes().KeySize());
 		MemoryTools::Copy(Parameters.Key(), 0, m_kdf2State->State, 0, m_kdf2State->State.size());
diff --git a/CEX/PBKDF2.cpp b/CEX/PBKDF2.cpp
index c4e2ba7..a0b263d 100644
--- a/CEX/PBKDF2.cpp
+++ b/CEX/PBKDF2.cpp
@@ -212,6 +212,11 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 	}
 #endif
 
+	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0 && Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
+	{
+		throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
+	}
+
 	if (IsInitialized() == true)
 	{
 		Reset();
@@ -226,11 +231,6 @@ void PBKDF2::Initialize(ISymmetricKey &Parameters)
 
 	if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() != 0)
 	{
-		if (Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize() < MinimumSaltSize())
-		{
-			throw CryptoKdfException(Name(), std::string("Initialize"), std::string("Salt value is too small, must be at least 4 bytes in length!"), ErrorCodes::InvalidSalt);
-		}
-
 		// resize the salt
 		m_pbkdf2State->Salt.resize(Parameters.KeySizes().IVSize() + Parameters.KeySizes().InfoSize());
 
-- 
2.43.0


From 29bc3f7cb74ea8dff93abf52c8d95cad3aff613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:17 +0000
Subject: [PATCH 101/128] fix: KDF2 refused a request that reaches its
 documented maximum output

---
 CEX/KDF2.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/KDF2.cpp b/CEX/KDF2.cpp
index 9a4db06..8712fc1 100644
--- a/CEX/KDF2.cpp
+++ b/CEX/KDF2.cpp
@@ -130,7 +130,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Output.size() / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1 + ((Output.size() + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -144,7 +144,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Output.size() / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1 + ((Output.size() + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -158,7 +158,7 @@ void KDF2::Generate(std::vector<uint8_t> &Output, size_t OutOffset, size_t Lengt
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Length / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1 + ((Length + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
@@ -176,7 +176,7 @@ void KDF2::Generate(SecureVector<uint8_t> &Output, size_t OutOffset, size_t Leng
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
 	}
-	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) + (Length / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
+	if (IntegerTools::BeBytesTo32(m_kdf2State->Counter, 0) - 1 + ((Length + m_kdf2Generator->DigestSize() - 1) / m_kdf2Generator->DigestSize()) > MAXGEN_REQUESTS)
 	{
 		throw CryptoKdfException(Name(), std::string("Generate"), std::string("Request exceeds maximum allowed output!"), ErrorCodes::MaxExceeded);
 	}
-- 
2.43.0


From 408aa75711e9482e9138b5e7cc1ce51c8c7cb900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:48 +0000
Subject: [PATCH 102/128] fix: CFB wrote past the end of its register when the
 nonce is longer than a block

---
 CEX/CFB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CEX/CFB.cpp b/CEX/CFB.cpp
index ed24c8a..f0cfd56 100644
--- a/CEX/CFB.cpp
+++ b/CEX/CFB.cpp
@@ -188,6 +188,10 @@ void CFB::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a minimum 1 uint8_t of Nonce!"), ErrorCodes::InvalidNonce);
 	}
+	if (Parameters.KeySizes().IVSize() > BLOCK_SIZE)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("The nonce can not be longer than the ciphers block size!"), ErrorCodes::InvalidNonce);
+	}
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Invalid key size; key must be one of the LegalKeySizes members in length!"), ErrorCodes::InvalidKey);
-- 
2.43.0


From 32d08edaf495a86ee08d9e5e165214fc1e501506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 103/128] fix: TSX512 and TSX1024 read past the end of a short
 info parameter

---
 CEX/TSX1024.cpp | 2 +-
 CEX/TSX512.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 1bb6e06..0e3ed8b 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -198,7 +198,7 @@ void TSX1024::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Nonce must be 16 bytes!"), ErrorCodes::InvalidNonce);
 	}
-	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() != INFO_SIZE)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be no more than 16 bytes!"), ErrorCodes::InvalidInfo);
 	}
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 2b704ad..2345cb6 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -198,7 +198,7 @@ void TSX512::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Nonce must be 16 bytes!"), ErrorCodes::InvalidNonce);
 	}
-	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() > INFO_SIZE)
+	if (Parameters.KeySizes().InfoSize() > 0 && Parameters.KeySizes().InfoSize() != INFO_SIZE)
 	{
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be no more than 16 bytes!"), ErrorCodes::InvalidInfo);
 	}
-- 
2.43.0


From 281c20b44498164fa112ec27e224db3db133ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 104/128] fix: the TSX ciphers did not check the output for the
 size of the tag they append

---
 CEX/TSX1024.cpp | 2 +-
 CEX/TSX256.cpp  | 2 +-
 CEX/TSX512.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CEX/TSX1024.cpp b/CEX/TSX1024.cpp
index 0e3ed8b..5e8a0de 100644
--- a/CEX/TSX1024.cpp
+++ b/CEX/TSX1024.cpp
@@ -354,7 +354,7 @@ void TSX1024::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std:
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
diff --git a/CEX/TSX256.cpp b/CEX/TSX256.cpp
index b6b8171..eafd6a7 100644
--- a/CEX/TSX256.cpp
+++ b/CEX/TSX256.cpp
@@ -331,7 +331,7 @@ void TSX256::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
diff --git a/CEX/TSX512.cpp b/CEX/TSX512.cpp
index 2345cb6..11d659e 100644
--- a/CEX/TSX512.cpp
+++ b/CEX/TSX512.cpp
@@ -338,7 +338,7 @@ void TSX512::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::
 	{
 		if (IsAuthenticator() == true)
 		{
-			if (Output.size() < Length + OutOffset + m_macAuthenticator->TagSize())
+			if (Output.size() < Length + OutOffset + TagSize())
 			{
 				throw CryptoSymmetricException(Name(), std::string("Transform"), std::string("The vector is not int64_t enough to add the MAC code!"), ErrorCodes::InvalidSize);
 			}
-- 
2.43.0


From fc638d9d5c17bff8b5c9633a1b7650f2d4799e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 105/128] fix: RCS, RWS, and HBA changed state before an info
 string that is too short was refused by the KDF

---
 CEX/HBA.cpp | 6 ++++++
 CEX/RCS.cpp | 4 ++++
 CEX/RWS.cpp | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 9f2f974..50c18bc 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -197,6 +197,12 @@ void HBA::Initialize(bool Encryption, ISymmetricKey &Parameters)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a nonce equal in size to the ciphers block size!"), ErrorCodes::InvalidNonce);
 	}
+	if (Parameters.KeySizes().InfoSize() != 0 && Parameters.KeySizes().InfoSize() < sizeof(uint32_t) &&
+		static_cast<StreamAuthenticators>(m_macAuthenticator->Enumeral()) != StreamAuthenticators::HMACSHA2256 &&
+		static_cast<StreamAuthenticators>(m_macAuthenticator->Enumeral()) != StreamAuthenticators::HMACSHA2512)
+	{
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Info must be empty, or at least 4 bytes in length!"), ErrorCodes::InvalidInfo);
+	}
 
 	if (m_cipherMode->IsParallel())
 	{
diff --git a/CEX/RCS.cpp b/CEX/RCS.cpp
index 7e21590..2f370b5 100644
--- a/CEX/RCS.cpp
+++ b/CEX/RCS.cpp
@@ -403,6 +403,10 @@ void RCS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Requires a nonce equal in size to the ciphers block size!"), ErrorCodes::InvalidNonce);
 	}
 
+	if (Parameters.KeySizes().InfoSize() != 0 && Parameters.KeySizes().InfoSize() < sizeof(uint32_t))
+	{
+		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be empty, or at least 4 bytes in length!"), ErrorCodes::InvalidInfo);
+	}
 	if (m_parallelProfile.IsParallel())
 	{
 		if (m_parallelProfile.IsParallel() && m_parallelProfile.ParallelBlockSize() < m_parallelProfile.ParallelMinimumSize() || m_parallelProfile.ParallelBlockSize() > m_parallelProfile.ParallelMaximumSize())
diff --git a/CEX/RWS.cpp b/CEX/RWS.cpp
index 216f9e5..df7f410 100644
--- a/CEX/RWS.cpp
+++ b/CEX/RWS.cpp
@@ -361,6 +361,10 @@ void RWS::Initialize(bool Encryption, ISymmetricKey &Parameters)
 		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Requires a nonce equal in size to the ciphers block size!"), ErrorCodes::InvalidNonce);
 	}
 
+	if (Parameters.KeySizes().InfoSize() != 0 && Parameters.KeySizes().InfoSize() < sizeof(uint32_t))
+	{
+		throw CryptoSymmetricException(Name(), std::string("Initialize"), std::string("Info must be empty, or at least 4 bytes in length!"), ErrorCodes::InvalidInfo);
+	}
 	if (m_parallelProfile.IsParallel())
 	{
 		if (m_parallelProfile.IsParallel() && m_parallelProfile.ParallelBlockSize() < m_parallelProfile.ParallelMinimumSize() || m_parallelProfile.ParallelBlockSize() > m_parallelProfile.ParallelMaximumSize())
-- 
2.43.0


From 6156eb5376be17fb3b737fb986265326627d6290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 106/128] fix: HBA updated its MAC before refusing an output
 array that is too small

---
 CEX/HBA.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/CEX/HBA.cpp b/CEX/HBA.cpp
index 50c18bc..f3df932 100644
--- a/CEX/HBA.cpp
+++ b/CEX/HBA.cpp
@@ -398,16 +398,16 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The cipher mode has not been initialized!"), ErrorCodes::NotInitialized);
 	}
 
+	if (OutOffset > Output.size() || Output.size() - OutOffset < (IsEncryption() ? Length + TagSize() : Length))
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	// add the starting position of the nonce to the mac
 	m_macAuthenticator->Update(m_cipherMode->Nonce(), 0, m_cipherMode->Nonce().size());
 
 	if (IsEncryption() == true)
 	{
-		if (Output.size() - OutOffset < Length + TagSize())
-		{
-			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
-		}
-
 		// encrypt the plain-text
 		m_cipherMode->Transform(Input, InOffset, Output, OutOffset, Length);
 		// update the MAC with the cipher-text
@@ -420,11 +420,6 @@ void HBA::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	}
 	else
 	{
-		if (Output.size() - OutOffset < Length)
-		{
-			throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
-		}
-
 		// update the MAC with the input cipher-text
 		m_macAuthenticator->Update(Input, InOffset, Length);
 		// update the mac counter
-- 
2.43.0


From 2643e2b8b2516aa8331290c33509f871eb3a4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 107/128] fix: GCM Initialize discarded the associated data and
 tag before refusing its parameters

---
 CEX/GCM.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 6e7d475..090b748 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -184,13 +184,6 @@ const size_t GCM::TagSize()
 
 void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 {
-	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
-	m_gcmState->AAD.resize(0);
-	m_macAuthenticator->Clear();
-	m_gcmState->Counter = 0;
-
-	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
-
 	if (Parameters.KeySizes().IVSize() < MIN_NONCESIZE)
 	{
 		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Requires a nonce of minimum 10 bytes in length!"), ErrorCodes::InvalidNonce);
@@ -219,13 +212,24 @@ void GCM::Initialize(bool Encryption, ISymmetricKey &Parameters)
 			throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("First initialization requires a key and nonce!"), ErrorCodes::IllegalOperation);
 		}
 	}
+	else if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
+	{
+		throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Invalid key size; key must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
+	}
 	else
 	{
-		if (!SymmetricKeySize::Contains(LegalKeySizes(), Parameters.KeySizes().KeySize()))
-		{
-			throw CryptoCipherModeException(Name(), std::string("Initialize"), std::string("Invalid key size; key must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
-		}
+		// misra
+	}
 
+	// reset the associated data, counter and tag
+	MemoryTools::Clear(m_gcmState->AAD, 0, m_gcmState->AAD.size());
+	m_gcmState->AAD.resize(0);
+	m_macAuthenticator->Clear();
+	m_gcmState->Counter = 0;
+	MemoryTools::Clear(m_gcmState->Tag, 0, m_gcmState->Tag.size());
+
+	if (Parameters.KeySizes().KeySize() != 0)
+	{
 		// key the block-cipher and create the hash key
 		m_cipherMode->Engine()->Initialize(true, Parameters);
 		std::vector<uint8_t> tmph(BLOCK_SIZE);
-- 
2.43.0


From 8ca8d11f29c702fe229215d5ed1c4e99e7d87034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 108/128] fix: GCM wrote the tag past the end of an output
 array that is too small

---
 CEX/GCM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 090b748..48a4d66 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -330,6 +330,11 @@ void GCM::Transform(const std::vector<uint8_t> &Input, size_t InOffset, std::vec
 	CEXASSERT(IsInitialized(), "The cipher mode has not been initialized!");
 	CEXASSERT(IntegerTools::Min(Input.size() - InOffset, Output.size() - OutOffset) >= Length, "The data arrays are smaller than the the block-size!");
 
+	if (OutOffset > Output.size() || Output.size() - OutOffset < (IsEncryption() ? Length + TagSize() : Length))
+	{
+		throw CryptoCipherModeException(Name(), std::string("Transform"), std::string("The output array is too small!"), ErrorCodes::InvalidSize);
+	}
+
 	m_gcmState->Counter += Length;
 
 	if (IsEncryption() == true)
-- 
2.43.0


From 4df71eb6e0108a9d30c2fa6bc16704489b93c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 109/128] fix: GCM read the associated data past the end of an
 array that is too small

---
 CEX/GCM.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/CEX/GCM.cpp b/CEX/GCM.cpp
index 48a4d66..65fb235 100644
--- a/CEX/GCM.cpp
+++ b/CEX/GCM.cpp
@@ -303,6 +303,10 @@ void GCM::SetAssociatedData(const std::vector<uint8_t> &Input, size_t Offset, si
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
@@ -319,6 +323,10 @@ void GCM::SetAssociatedData(const SecureVector<uint8_t> &Input, size_t Offset, s
 	{
 		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The associated data has already been set!"), ErrorCodes::IllegalOperation);
 	}
+	if (Offset > Input.size() || Length > Input.size() - Offset)
+	{
+		throw CryptoCipherModeException(Name(), std::string("SetAssociatedData"), std::string("The input array is too small!"), ErrorCodes::InvalidSize);
+	}
 
 	m_gcmState->AAD.resize(Length);
 	MemoryTools::Copy(Input, Offset, m_gcmState->AAD, 0, Length);
-- 
2.43.0


From bfd064ddaaaef5b785bf395ab4d66f161544f576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 110/128] fix: the DRBGs Update did not refuse an uninitialized
 generator

---
 CEX/BCG.cpp | 5 +++++
 CEX/CSG.cpp | 5 +++++
 CEX/HCG.cpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index e3bc6b3..a371060 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -341,6 +341,11 @@ void BCG::Update(const std::vector<uint8_t> &Key)
 
 void BCG::Update(const SecureVector<uint8_t> &Key)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 #if defined(CEX_ENFORCE_LEGALKEY)
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
diff --git a/CEX/CSG.cpp b/CEX/CSG.cpp
index 02ed6a6..c978b53 100644
--- a/CEX/CSG.cpp
+++ b/CEX/CSG.cpp
@@ -353,6 +353,11 @@ void CSG::Update(const std::vector<uint8_t> &Key)
 
 void CSG::Update(const SecureVector<uint8_t> &Key)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 #if defined(CEX_ENFORCE_LEGALKEY)
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
diff --git a/CEX/HCG.cpp b/CEX/HCG.cpp
index 4bb402a..3a6e3b8 100644
--- a/CEX/HCG.cpp
+++ b/CEX/HCG.cpp
@@ -292,6 +292,11 @@ void HCG::Initialize(ISymmetricKey &Parameters)
 
 void HCG::Update(const std::vector<uint8_t> &Key)
 {
+	if (IsInitialized() == false)
+	{
+		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("The generator has not been initialized!"), ErrorCodes::NotInitialized);
+	}
+
 #if defined(CEX_ENFORCE_LEGALKEY)
 	if (!SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
-- 
2.43.0


From 4bf8b785b2d4f0af352ce8c4752fd9b61b19fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:49 +0000
Subject: [PATCH 111/128] fix: BCG Update counted a reseed and used its
 provider before refusing an illegal key size

---
 CEX/BCG.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/BCG.cpp b/CEX/BCG.cpp
index a371060..6b6af38 100644
--- a/CEX/BCG.cpp
+++ b/CEX/BCG.cpp
@@ -352,7 +352,7 @@ void BCG::Update(const SecureVector<uint8_t> &Key)
 		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("Invalid key size, the key length must be one of the LegalKeySizes in length!"), ErrorCodes::InvalidKey);
 	}
 #else
-	if (Key.size() < MINKEY_LENGTH)
+	if (Key.size() < MINKEY_LENGTH || !SymmetricKeySize::Contains(LegalKeySizes(), Key.size()))
 	{
 		throw CryptoGeneratorException(Name(), std::string("Update"), std::string("Key size is invalid; check the key property for accepted value!"), ErrorCodes::InvalidKey);
 	}
-- 
2.43.0


From 7ffec68296460a6e354d3b70e64622916feb7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:00 +0000
Subject: [PATCH 112/128] fix: the wide SHA2-256 permutation read one lane's
 message at the wrong offset

---
 CEX/SHA2.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/SHA2.h b/CEX/SHA2.h
index 580b4e5..1c7f3c5 100644
--- a/CEX/SHA2.h
+++ b/CEX/SHA2.h
@@ -863,7 +863,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
@@ -953,7 +953,7 @@ public:
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t))),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 64),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 128),
-				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 196),
+				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 192),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 256),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 320),
 				IntegerTools::BeBytesTo32(Input, InOffset + (i * sizeof(uint32_t)) + 384),
-- 
2.43.0


From 05d9f21d73ce9645264a1832a5b6ea34fff61ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:00 +0000
Subject: [PATCH 113/128] fix: Keccak::XOFR48P1600 called a function that does
 not exist

---
 CEX/Keccak.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 49c1240..5b6b903 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -8594,7 +8594,7 @@ public:
 #endif
 
 		blkcnt = OutLength / Rate;
-		SqueezeR48(state, Output, OutOffset, blkcnt, Rate);
+		Squeeze(state, Output, OutOffset, blkcnt, Rate, PermutationRounds::RX48);
 		OutOffset += blkcnt * Rate;
 		OutLength -= blkcnt * Rate;
 
-- 
2.43.0


From 8b18b1ce6c016085d5b4dd5fbe7d05864789dae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:01 +0000
Subject: [PATCH 114/128] fix: Keccak::Incremental mixed bytes of an unaligned
 start into the last partial word

---
 CEX/Keccak.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 5b6b903..505ee5c 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -309,6 +309,8 @@ public:
 
 		if (InLength > 0)
 		{
+			MemoryTools::Clear(t, 0, t.size());
+
 			for (i = 0; i < InLength; ++i)
 			{
 				t[i] = Input[InOffset + i];
-- 
2.43.0


From 4fc1f4e46d3d086398fdc35c38cac2483e2d9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:01 +0000
Subject: [PATCH 115/128] fix: Keccak::Finalize ignored the number of rounds

---
 CEX/Keccak.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CEX/Keccak.h b/CEX/Keccak.h
index 505ee5c..1f9141f 100644
--- a/CEX/Keccak.h
+++ b/CEX/Keccak.h
@@ -509,7 +509,7 @@ public:
 
 		while (Length >= Rate)
 		{
-			Squeeze(State, pad, 0, 1, Rate);
+			Squeeze(State, pad, 0, 1, Rate, Rounds);
 			MemoryTools::Copy(pad, 0, Output, Offset, Rate);
 			Offset += Rate;
 			Length -= Rate;
@@ -517,7 +517,7 @@ public:
 
 		if (Length > 0)
 		{
-			Squeeze(State, pad, 0, 1, Rate);
+			Squeeze(State, pad, 0, 1, Rate, Rounds);
 			MemoryTools::Copy(pad, 0, Output, Offset, Length);
 		}
 	}
-- 
2.43.0


From 382bd8724937c2fade2ec82b821e6fd5281a0b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 116/128] fix: ULong256 LoadULL did not compile and truncated
 the integers to 32 bits

---
 CEX/ULong256.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 45818bf..45a20aa 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -169,12 +169,8 @@ public:
 	template<typename Array>
 	inline void LoadULL(const Array &Input, size_t Offset)
 	{
-		CEXASSERT(sizeof(uint32_t) <= sizeof(Array::value_type), "The input array integer size must be less or equal to uint32");
-
-		zmm = _mm256_set_epi64x(static_cast<uint32_t>(Input[Offset]),
-			static_cast<uint32_t>(Input[Offset + (sizeof(uint32_t) / sizeof(Array::value_type))]),
-			static_cast<uint32_t>(Input[Offset + (sizeof(uint32_t) / sizeof(Array::value_type) * 2)]),
-			static_cast<uint32_t>(Input[Offset + (sizeof(uint32_t) / sizeof(Array::value_type) * 3)]));
+		ymm = _mm256_set_epi64x(static_cast<uint64_t>(Input[Offset]), static_cast<uint64_t>(Input[Offset + 1]),
+			static_cast<uint64_t>(Input[Offset + 2]), static_cast<uint64_t>(Input[Offset + 3]));
 	}
 
 	/// <summary>
-- 
2.43.0


From ee52153fcdb998db729b2ce18d8f9de2275d1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 117/128] fix: the SIMD integers increment and decrement
 operators did not change the integer

---
 CEX/UInt128.h   | 20 ++++++++++++++++----
 CEX/UInt256.h   | 20 ++++++++++++++++----
 CEX/ULong256.h  | 10 ++++++++--
 CEX/UShort128.h | 20 ++++++++++++++++----
 4 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index ad304f4..3225600 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -437,7 +437,9 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ ()
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -445,7 +447,11 @@ public:
 	/// </summary>
 	inline UInt128 operator ++ (int32_t)
 	{
-		return UInt128(xmm) + UInt128::ONE();
+		const UInt128 tmp(xmm);
+
+		*this += ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
@@ -473,7 +479,9 @@ public:
 	/// </summary>
 	inline UInt128 operator -- ()
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		*this -= ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -481,7 +489,11 @@ public:
 	/// </summary>
 	inline UInt128 operator -- (int32_t)
 	{
-		return UInt128(xmm) - UInt128::ONE();
+		const UInt128 tmp(xmm);
+
+		*this -= ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index b09e7d8..69ffd06 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -446,7 +446,9 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ ()
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -454,7 +456,11 @@ public:
 	/// </summary>
 	inline UInt256 operator ++ (int32_t)
 	{
-		return UInt256(ymm) + UInt256::ONE();
+		const UInt256 tmp(ymm);
+
+		*this += ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
@@ -482,7 +488,9 @@ public:
 	/// </summary>
 	inline UInt256 operator -- ()
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		*this -= ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -490,7 +498,11 @@ public:
 	/// </summary>
 	inline UInt256 operator -- (int32_t)
 	{
-		return UInt256(ymm) - UInt256::ONE();
+		const UInt256 tmp(ymm);
+
+		*this -= ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 45a20aa..0e215d3 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -351,7 +351,9 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ ()
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -359,7 +361,11 @@ public:
 	/// </summary>
 	inline ULong256 operator ++ (int32_t)
 	{
-		return ULong256(ymm) + ULong256::ONE();
+		const ULong256 tmp(ymm);
+
+		*this += ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index b1e06c8..4b05e36 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -384,7 +384,9 @@ public:
 	/// </summary>
 	inline UShort128 operator ++ ()
 	{
-		return UShort128(xmm) + ONE();
+		*this += ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -392,7 +394,11 @@ public:
 	/// </summary>
 	inline UShort128 operator ++ (int32_t)
 	{
-		return UShort128(xmm) + ONE();
+		const UShort128 tmp(xmm);
+
+		*this += ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
@@ -420,7 +426,9 @@ public:
 	/// </summary>
 	inline UShort128 operator -- ()
 	{
-		return UShort128(xmm) - ONE();
+		*this -= ONE();
+
+		return *this;
 	}
 
 	/// <summary>
@@ -428,7 +436,11 @@ public:
 	/// </summary>
 	inline UShort128 operator -- (int32_t)
 	{
-		return UShort128(xmm) - ONE();
+		const UShort128 tmp(xmm);
+
+		*this -= ONE();
+
+		return tmp;
 	}
 
 	/// <summary>
-- 
2.43.0


From e885030572e09ac122725b85bf28abfe40df0ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 118/128] fix: the SIMD integers ShiftRA and ShiftRL took the
 count from two lanes, and shifted everything out

---
 CEX/UInt128.h | 4 ++--
 CEX/UInt256.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index 3225600..e0f43b7 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -323,7 +323,7 @@ public:
 	inline static UInt128 ShiftRA(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -337,7 +337,7 @@ public:
 	inline static UInt128 ShiftRL(const UInt128 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt128(_mm_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt128(_mm_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 69ffd06..0b48362 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -342,7 +342,7 @@ public:
 	inline static UInt256 ShiftRA(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_sra_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_sra_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
@@ -356,7 +356,7 @@ public:
 	inline static UInt256 ShiftRL(const UInt256 &Value, const int32_t Shift)
 	{
 		CEXASSERT(Shift <= 32, "Shift size is too large");
-		return UInt256(_mm256_srl_epi32(Value, _mm_set1_epi32(Shift)));
+		return UInt256(_mm256_srl_epi32(Value, _mm_cvtsi32_si128(Shift)));
 	}
 
 	/// <summary>
-- 
2.43.0


From 6d432617143e2023c5f85c9da51c2a641c02214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 119/128] fix: ULong256 multiplied 32-bit halves and not the
 64-bit integers

---
 CEX/ULong256.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 0e215d3..f478e5c 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -400,8 +400,8 @@ public:
 		ymm = _mm256_mullo_epi64(ymm, X.ymm);
 #else
 		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		ymm = _mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0)));
+		__m256i tmp2 = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		ymm = _mm256_add_epi64(tmp1, _mm256_slli_epi64(tmp2, 32));
 #endif
 	}
 
@@ -416,8 +416,8 @@ public:
 		return ULong256(_mm256_mullo_epi64(ymm, X.ymm));
 #else
 		__m256i tmp1 = _mm256_mul_epu32(ymm, X.ymm);
-		__m256i tmp2 = _mm256_mul_epu32(_mm256_srli_si256(ymm, 4), _mm256_srli_si256(X.ymm, 4));
-		return ULong256(_mm256_unpacklo_epi32(_mm256_shuffle_epi32(tmp1, _MM_SHUFFLE(0, 0, 2, 0)), _mm256_shuffle_epi32(tmp2, _MM_SHUFFLE(0, 0, 2, 0))));
+		__m256i tmp2 = _mm256_add_epi64(_mm256_mul_epu32(_mm256_srli_epi64(ymm, 32), X.ymm), _mm256_mul_epu32(ymm, _mm256_srli_epi64(X.ymm, 32)));
+		return ULong256(_mm256_add_epi64(tmp1, _mm256_slli_epi64(tmp2, 32)));
 #endif
 	}
 
-- 
2.43.0


From 1d549cdff8bad5342366f753fdfc1d91cc744e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 120/128] fix: ULong256 Abs processed the 32-bit halves

---
 CEX/ULong256.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index f478e5c..a2df87d 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -217,7 +217,9 @@ public:
 	/// <returns>The processed ULong256</returns>
 	inline static ULong256 Abs(const ULong256 &Value)
 	{
-		return ULong256(_mm256_abs_epi32(Value.ymm));
+		const __m256i SIGN = _mm256_cmpgt_epi64(_mm256_setzero_si256(), Value.ymm);
+
+		return ULong256(_mm256_sub_epi64(_mm256_xor_si256(Value.ymm, SIGN), SIGN));
 	}
 
 	/// <summary>
-- 
2.43.0


From f69927935e1810c6aa9ce64003b15cd60e8796ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 121/128] fix: ULong256 Swap swapped the bytes of the 32-bit
 halves

---
 CEX/ULong256.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index a2df87d..1cc5098 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -303,8 +303,8 @@ public:
 	{
 		__m256i tmpX = ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
@@ -320,8 +320,8 @@ public:
 	{
 		__m256i tmpX = X.ymm;
 
-		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
+		tmpX = _mm256_shufflehi_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
+		tmpX = _mm256_shufflelo_epi16(tmpX, _MM_SHUFFLE(0, 1, 2, 3));
 
 		return ULong256(_mm256_or_si256(_mm256_srli_epi16(tmpX, 8), _mm256_slli_epi16(tmpX, 8)));
 	}
-- 
2.43.0


From 1e95fdebfcb6b0ca1a49c25de33a81d19c5c1d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:21 +0000
Subject: [PATCH 122/128] fix: the unsigned SIMD integers were compared as
 signed integers

---
 CEX/UInt128.h   | 8 ++++++--
 CEX/UInt256.h   | 8 ++++++--
 CEX/ULong256.h  | 8 ++++++--
 CEX/UShort128.h | 8 ++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/CEX/UInt128.h b/CEX/UInt128.h
index e0f43b7..1cd8c44 100644
--- a/CEX/UInt128.h
+++ b/CEX/UInt128.h
@@ -657,7 +657,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator > (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmpgt_epi32(xmm, X.xmm));
+		const __m128i BIAS = _mm_set1_epi32(0x80000000UL);
+
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(xmm, BIAS), _mm_xor_si128(X.xmm, BIAS)));
 	}
 
 	/// <summary>
@@ -667,7 +669,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt128 operator < (UInt128 const &X) const
 	{
-		return UInt128(_mm_cmplt_epi32(xmm, X.xmm));
+		const __m128i BIAS = _mm_set1_epi32(0x80000000UL);
+
+		return UInt128(_mm_cmpgt_epi32(_mm_xor_si128(X.xmm, BIAS), _mm_xor_si128(xmm, BIAS)));
 	}
 
 	/// <summary>
diff --git a/CEX/UInt256.h b/CEX/UInt256.h
index 0b48362..abaac07 100644
--- a/CEX/UInt256.h
+++ b/CEX/UInt256.h
@@ -720,7 +720,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator > (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(ymm, X.ymm));
+		const __m256i BIAS = _mm256_set1_epi32(0x80000000UL);
+
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(ymm, BIAS), _mm256_xor_si256(X.ymm, BIAS)));
 	}
 
 	/// <summary>
@@ -730,7 +732,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UInt256 operator < (UInt256 const &X) const
 	{
-		return UInt256(_mm256_cmpgt_epi32(X.ymm, ymm));
+		const __m256i BIAS = _mm256_set1_epi32(0x80000000UL);
+
+		return UInt256(_mm256_cmpgt_epi32(_mm256_xor_si256(X.ymm, BIAS), _mm256_xor_si256(ymm, BIAS)));
 	}
 
 	/// <summary>
diff --git a/CEX/ULong256.h b/CEX/ULong256.h
index 1cc5098..ac746ae 100644
--- a/CEX/ULong256.h
+++ b/CEX/ULong256.h
@@ -610,7 +610,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator > (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(ymm, X.ymm));
+		const __m256i BIAS = _mm256_set1_epi64x(0x8000000000000000ULL);
+
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(ymm, BIAS), _mm256_xor_si256(X.ymm, BIAS)));
 	}
 
 	/// <summary>
@@ -620,7 +622,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline ULong256 operator < (ULong256 const &X) const
 	{
-		return ULong256(_mm256_cmpgt_epi64(X.ymm, ymm));
+		const __m256i BIAS = _mm256_set1_epi64x(0x8000000000000000ULL);
+
+		return ULong256(_mm256_cmpgt_epi64(_mm256_xor_si256(X.ymm, BIAS), _mm256_xor_si256(ymm, BIAS)));
 	}
 
 	/// <summary>
diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index 4b05e36..a235ef1 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -602,7 +602,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UShort128 operator > (UShort128 const &X) const
 	{
-		return UShort128(_mm_cmpgt_epi16(xmm, X.xmm));
+		const __m128i BIAS = _mm_set1_epi16(0x8000U);
+
+		return UShort128(_mm_cmpgt_epi16(_mm_xor_si128(xmm, BIAS), _mm_xor_si128(X.xmm, BIAS)));
 	}
 
 	/// <summary>
@@ -612,7 +614,9 @@ public:
 	/// <param name="X">The values to compare</param>
 	inline UShort128 operator < (UShort128 const &X) const
 	{
-		return UShort128(_mm_cmplt_epi16(xmm, X.xmm));
+		const __m128i BIAS = _mm_set1_epi16(0x8000U);
+
+		return UShort128(_mm_cmpgt_epi16(_mm_xor_si128(X.xmm, BIAS), _mm_xor_si128(xmm, BIAS)));
 	}
 
 	/// <summary>
-- 
2.43.0


From 846fae6ae5fe9cbe9f0ac5d2b72d3401316fa82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:10 +0000
Subject: [PATCH 123/128] fix: UShort128 Swap exchanged neighbouring 16-bit
 integers

---
 CEX/UShort128.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/CEX/UShort128.h b/CEX/UShort128.h
index a235ef1..1cf12a8 100644
--- a/CEX/UShort128.h
+++ b/CEX/UShort128.h
@@ -272,12 +272,7 @@ public:
 	/// <returns>The uint8_t swapped UShort128</returns>
 	inline UShort128 Swap() const
 	{
-		__m128i tmpX = xmm;
-
-		tmpX = _mm_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1)); // ?
-		tmpX = _mm_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-
-		return UShort128(_mm_or_si128(_mm_srli_epi16(tmpX, 8), _mm_slli_epi16(tmpX, 8)));
+		return UShort128(_mm_or_si128(_mm_srli_epi16(xmm, 8), _mm_slli_epi16(xmm, 8)));
 	}
 
 	/// <summary>
@@ -289,12 +284,7 @@ public:
 	/// <returns>The uint8_t swapped UShort128</returns>
 	inline static UShort128 Swap(UShort128 &X)
 	{
-		__m128i tmpX = X.xmm;
-
-		tmpX = _mm_shufflehi_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-		tmpX = _mm_shufflelo_epi16(tmpX, _MM_SHUFFLE(2, 3, 0, 1));
-
-		return UShort128(_mm_or_si128(_mm_srli_epi16(tmpX, 8), _mm_slli_epi16(tmpX, 8)));
+		return UShort128(_mm_or_si128(_mm_srli_epi16(X.xmm, 8), _mm_slli_epi16(X.xmm, 8)));
 	}
 
 	/// <summary>
-- 
2.43.0


From db53b48703637e448ca87e5310085abd61ad0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:19 +0000
Subject: [PATCH 124/128] fix: the digest parameter classes read past the end
 of an encoding that is too short

---
 CEX/BlakeParams.cpp  |  7 +++++++
 CEX/KeccakParams.cpp | 12 +++++++++++-
 CEX/SHA2Params.cpp   |  7 +++++++
 CEX/SkeinParams.cpp  |  9 ++++++++-
 4 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 67ab6d7..1c1d84d 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -72,6 +72,13 @@ BlakeParams::BlakeParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_nodeDepth, &TreeArray[9], 1);
 	std::memcpy(&m_innerLen, &TreeArray[10], 1);
 	std::memcpy(&m_reserved, &TreeArray[11], 1);
+
+	// the distribution code is sized by the output size
+	if (TreeArray.size() < 12 + DistributionCodeMax())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[12], m_dstCode.size());
 }
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 69d305e..2bf1763 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -55,7 +55,10 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved(0),
 	m_dstCode(0)
 {
-	CEXASSERT(TreeArray.size() >= GetHeaderSize(), "The TreeArray buffer is too int16_t!");
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
 
 	m_nodeOffset = IntegerTools::LeBytesTo32(TreeArray, 0);
 	m_treeVersion = IntegerTools::LeBytesTo16(TreeArray, 4);
@@ -64,6 +67,13 @@ KeccakParams::KeccakParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	// the distribution code is sized by the output size
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 6d0649d..5e9afd2 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -68,6 +68,13 @@ SHA2Params::SHA2Params(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeDepth, &TreeArray[18], 1);
 	std::memcpy(&m_treeFanout, &TreeArray[19], 1);
 	m_reserved = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	// the distribution code is sized by the output size
+	if (TreeArray.size() < GetHeaderSize())
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 5b6aeb9..92bc827 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -65,7 +65,7 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	m_reserved3(0),
 	m_dstCode(0)
 {
-	if (TreeArray.size() < GetHeaderSize())
+	if (TreeArray.size() < HDR_SIZE)
 	{
 		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
 	}
@@ -79,6 +79,13 @@ SkeinParams::SkeinParams(const std::vector<uint8_t> &TreeArray)
 	std::memcpy(&m_treeFanout, &TreeArray[18], 1);
 	std::memcpy(&m_reserved2, &TreeArray[19], 1);
 	m_reserved3 = IntegerTools::LeBytesTo32(TreeArray, 20);
+
+	// the distribution code is sized by the output size
+	if (m_outputSize < HDR_SIZE || TreeArray.size() < m_outputSize)
+	{
+		throw CryptoDigestException(CLASS_NAME, std::string("Constructor"), std::string("The TreeArray buffer size is invalid!"), ErrorCodes::IllegalOperation);
+	}
+
 	m_dstCode.resize(DistributionCodeMax());
 	std::memcpy(&m_dstCode[0], &TreeArray[24], m_dstCode.size());
 }
-- 
2.43.0


From b04aae7031688b87c3c382b607851c05afa217ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:19 +0000
Subject: [PATCH 125/128] fix: digest parameters with the same hash code but
 different values were equal

---
 CEX/BlakeParams.cpp  | 2 +-
 CEX/KeccakParams.cpp | 9 +--------
 CEX/SHA2Params.cpp   | 9 +--------
 CEX/SkeinParams.cpp  | 2 +-
 4 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/CEX/BlakeParams.cpp b/CEX/BlakeParams.cpp
index 1c1d84d..32745e7 100644
--- a/CEX/BlakeParams.cpp
+++ b/CEX/BlakeParams.cpp
@@ -171,7 +171,7 @@ BlakeParams* BlakeParams::DeepCopy()
 
 bool BlakeParams::Equals(BlakeParams &Input)
 {
-	return (GetHashCode() == Input.GetHashCode());
+	return (ToBytes() == Input.ToBytes());
 }
 
 int32_t BlakeParams::GetHashCode()
diff --git a/CEX/KeccakParams.cpp b/CEX/KeccakParams.cpp
index 2bf1763..206fdb0 100644
--- a/CEX/KeccakParams.cpp
+++ b/CEX/KeccakParams.cpp
@@ -161,14 +161,7 @@ KeccakParams* KeccakParams::DeepCopy()
 
 bool KeccakParams::Equals(KeccakParams &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return (this->ToBytes() == Input.ToBytes());
 }
 
 int32_t KeccakParams::GetHashCode()
diff --git a/CEX/SHA2Params.cpp b/CEX/SHA2Params.cpp
index 5e9afd2..99bc0f7 100644
--- a/CEX/SHA2Params.cpp
+++ b/CEX/SHA2Params.cpp
@@ -167,14 +167,7 @@ SHA2Params* SHA2Params::DeepCopy()
 
 bool SHA2Params::Equals(SHA2Params &Input)
 {
-	bool res(true);
-
-	if (this->GetHashCode() != Input.GetHashCode())
-	{
-		res = false;
-	}
-
-	return res;
+	return (this->ToBytes() == Input.ToBytes());
 }
 
 int32_t SHA2Params::GetHashCode()
diff --git a/CEX/SkeinParams.cpp b/CEX/SkeinParams.cpp
index 92bc827..95018b4 100644
--- a/CEX/SkeinParams.cpp
+++ b/CEX/SkeinParams.cpp
@@ -204,7 +204,7 @@ SkeinParams* SkeinParams::DeepCopy()
 
 bool SkeinParams::Equals(SkeinParams &Input)
 {
-	return (this->GetHashCode() == Input.GetHashCode());
+	return (this->ToBytes() == Input.ToBytes());
 }
 
 int32_t SkeinParams::GetHashCode()
-- 
2.43.0


From 4d91a7048fce66e61f36b481620329d1f35b0dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:33 +0000
Subject: [PATCH 126/128] fix: the Ed25519 scalar reduction shifted a negative
 carry as unsigned

---
 CEX/EC25519.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index f9c93cf..82e4fee 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -6067,7 +6067,7 @@ void EC25519::Sc25519Reduce(std::vector<uint8_t> &S)
 	carry = (s8 + (1LL << 20)) >> 21;
 	s9 += carry;
 	s8 -= carry * (1ULL << 21);
-	carry = (s10 + (1ULL << 20)) >> 21;
+	carry = (s10 + (1LL << 20)) >> 21;
 	s11 += carry;
 	s10 -= carry * (1ULL << 21);
 	carry = (s12 + (1LL << 20)) >> 21;
-- 
2.43.0


From 5f2ed6fd5c8813f5f8dceb7fe46a98114f1d61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:33 +0000
Subject: [PATCH 127/128] fix: the curve points of small order were compared
 with the first entry of the list only

---
 CEX/EC25519.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/CEX/EC25519.cpp b/CEX/EC25519.cpp
index 82e4fee..c08f71b 100644
--- a/CEX/EC25519.cpp
+++ b/CEX/EC25519.cpp
@@ -4920,20 +4920,20 @@ int32_t EC25519::Ge25519HasSmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
@@ -5433,20 +5433,20 @@ int32_t EC25519::Ed25519SmallOrder(const std::vector<uint8_t> &S)
 
 	for (j = 0; j < 31; ++j)
 	{
-		for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+		for (i = 0; i < blocklist.size(); ++i)
 		{
 			c[i] |= S[j] ^ blocklist[i][j];
 		}
 	}
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		c[i] |= (S[j] & 0x7f) ^ blocklist[i][j];
 	}
 
 	k = 0;
 
-	for (i = 0; i < sizeof(blocklist) / sizeof(blocklist[0]); ++i)
+	for (i = 0; i < blocklist.size(); ++i)
 	{
 		k |= (c[i] - 1);
 	}
-- 
2.43.0


From 352cce55444f7123adbdf1232bb39b87696f789e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:50 +0000
Subject: [PATCH 128/128] fix: Dilithium verification with AVX2 did not check
 that the signature is short

---
 CEX/DLTMBase.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/CEX/DLTMBase.h b/CEX/DLTMBase.h
index eef6486..52af431 100644
--- a/CEX/DLTMBase.h
+++ b/CEX/DLTMBase.h
@@ -669,10 +669,16 @@ public:
 			DLTMPolyMath::PolyChallenge(cp, Signature, T::DILITHIUM_TAU);
 			DLTMPolyMath::PolyNtt(cp);
 
-			// unpack z; shortness follows from unpacking
+			// unpack z and check that it is short
 			for (i = 0; i < T::DILITHIUM_L; ++i)
 			{
 				DLTMPolyMath::PolyZUnpack(z[i], Signature, DILITHIUM_SEED_SIZE + i * T::DILITHIUM_POLYZ_PACKED_SIZE, T::DILITHIUM_GAMMA1);
+
+				if (DLTMPolyMath::PolyChkNorm(z[i], T::DILITHIUM_GAMMA1 - T::DILITHIUM_BETA) != 0)
+				{
+					res = false;
+				}
+
 				DLTMPolyMath::PolyNtt(z[i]);
 			}
 		}
-- 
2.43.0

