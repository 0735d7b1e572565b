#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": ["CEX/" + f for f in files], "mechanism": [{"name": n, "where": "CEX/" + w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": "CEX/" + w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Authenticated decryption accepts exactly the genuine message",
  "For every authenticated cipher (GCM, HBA, and the authenticated stream ciphers), decrypting an unmodified ciphertext with the same key, nonce, customization and associated data succeeds and returns the plaintext. "
  "If any bit of the ciphertext, the tag, the nonce, the associated data or the key differs, or an earlier message of the session was dropped or reordered where the session state is part of the tag, decryption fails with the authentication-failure exception and writes nothing to the caller's output buffer. ",
  ["inputs", "histories", "configurations"],
  "every cipher, key size, message length, chunk of associated data, tamper position, buffer offset and session history (several messages, re-keying, failed attempts)",
  "Tests decrypt a handful of fixed-size messages and tamper with at most one position; acceptance must be refused at every position, length and session step.",
  ["GCM.cpp", "HBA.cpp", "RCS.cpp", "RWS.cpp", "CSX512.cpp", "TSX256.cpp", "TSX512.cpp", "TSX1024.cpp", "ChaChaP20.cpp"],
  [("tag comparison before decryption", "GCM.cpp Transform"), ("HBA verify", "HBA.cpp Transform"), ("stream cipher verify", "RCS.cpp Transform")],
  [("message counter", "bytes processed so far, bound into the tag", "HBA.cpp HbaState::Counter")],
  "ICipherMode/IAeadMode/IStreamCipher Transform, exceptions and output buffer")
p("C02", "AEAD ciphertext and tag follow the construction whatever the session",
  "The ciphertext and tag an authenticated cipher produces are exactly those of its documented construction applied to the key, nonce, customization, associated data and plaintext of that message and the position of the message in the session. "
  "They do not depend on input or output offsets, on whether multi-threading or wide SIMD processing is used, or on what the instance was used for before it was re-initialized.",
  ["inputs", "histories", "configurations"],
  "every authenticated cipher, length around block, SIMD-width and parallel-block boundaries, offset, parallel degree, and prior use of the instance",
  "Known-answer tests fix a few messages per cipher on fresh instances at offset zero.",
  ["GCM.cpp", "HBA.cpp", "GHASH.cpp", "CMUL.cpp", "RCS.cpp", "RWS.cpp", "CSX512.cpp", "TSX256.cpp", "TSX512.cpp", "TSX1024.cpp", "ChaChaP20.cpp", "StreamCipherFromName.cpp", "AeadModeFromName.cpp"],
  [("tag computation", "GCM.cpp Calculate"), ("HBA finalize", "HBA.cpp Finalize"), ("stream finalize", "RCS.cpp Finalize")],
  None, "Transform and Tag outputs")
p("C03", "Cipher modes compute their definition under any segmentation",
  "ECB, CBC, CFB, OFB, CTR and ICM output exactly the mode's definition applied to the concatenation of everything transformed since initialization, for every block-aligned split into calls, every in/out offset, and either processing path (sequential or multi-threaded). "
  "Decryption with the same key and IV inverts encryption. In CTR and ICM a call may have any length; each call starts on the next counter value, so no key-stream block is ever used twice under one initialization.",
  ["inputs", "histories", "configurations"],
  "every mode, block cipher, key size, IV (including counters about to carry), split of the message into calls, offset, register size and parallel setting",
  "Tests sample a few lengths and compare parallel with sequential for one size; carries, tails and IV chaining across calls are not enumerated.",
  ["CTR.cpp", "ICM.cpp", "CBC.cpp", "CFB.cpp", "OFB.cpp", "ECB.cpp", "CipherModeFromName.cpp"],
  [("counter generation and parallel split", "CTR.cpp ProcessParallel"), ("IV chaining", "CBC.cpp Decrypt128/DecryptParallel")],
  [("IV register", "next chaining value or counter", "CTR.cpp CtrState::Nonce")], "Transform outputs")
p("C04", "Unauthenticated stream ciphers emit one fixed, seekless keystream",
  "Without a MAC, each stream cipher XORs the input with the keystream that its definition gives for the key, nonce and customization, block after block, independent of how calls are sized (in whole blocks), of buffer offsets, of the parallel path and of the instance's earlier use; counters carry without repeating keystream. "
  "Applying the same configuration again returns the plaintext, and an object restored from a cipher's serialized state continues as that cipher would have.",
  ["inputs", "histories", "configurations"],
  "every stream cipher, key and nonce (counters at carry boundaries), segmentation, offset, parallel degree and re-initialization history",
  "Tests compare a few fixed lengths and never place the counter near a carry inside a SIMD group or parallel split.",
  ["ChaChaP20.cpp", "ChaCha.h", "CSX512.cpp", "TSX256.cpp", "TSX512.cpp", "TSX1024.cpp", "Threefish.h", "RCS.cpp", "RWS.cpp"],
  [("keystream generation", "CSX512.cpp Generate"), ("parallel processing", "TSX512.cpp Process")], None, "Transform outputs")
p("C05", "A digest is a function of the message bytes alone",
  "For every hash, the finalized output equals the hash function applied to all bytes passed since construction, the last finalize or reset, however those bytes were split into updates and whichever overload supplied them. "
  "Finalize returns the object to its initial state, and in the tree-hash configuration the result depends only on the message and the tree parameters.",
  ["inputs", "histories", "configurations"],
  "every digest, message length around block and lane boundaries, split into calls, offset, previous use, and tree configuration",
  "Tests hash a few known messages in one or two call patterns.",
  ["SHA2256.cpp", "SHA2512.cpp", "SHA3256.cpp", "SHA3512.cpp", "Blake256.cpp", "Blake512.cpp", "Skein256.cpp", "Skein512.cpp", "Skein1024.cpp", "Keccak.cpp", "SHA2.cpp", "Skein.h", "Blake.h", "DigestFromName.cpp"],
  [("block buffering", "SHA2256.cpp Update"), ("padding", "SHA2256.cpp HashFinal")],
  [("message buffer and position", "unprocessed tail of the message", "SHA2256.cpp SHA2256State")], "Finalize output")
p("C06", "A MAC tag is a function of key parameters and message bytes alone",
  "For every MAC, the tag equals the published function of the key, nonce, customization and the bytes supplied since initialization or the last reset, however they were split into updates and whatever the instance was used for before. "
  "Different update overloads and one-shot computation agree.",
  ["inputs", "histories", "configurations"],
  "every MAC and underlying primitive, key size, message length including all residues of the block size, split, offset and reuse history",
  "Tests check vectors with a handful of lengths; padding spills and stale state appear only at particular residues or histories.",
  ["HMAC.cpp", "KMAC.cpp", "CMAC.cpp", "GMAC.cpp", "Poly1305.cpp", "MacFromName.cpp", "GHASH.cpp", "Keccak.cpp"],
  [("finalization padding", "KMAC.cpp Finalize"), ("subkey handling", "CMAC.cpp Finalize")],
  [("key state and message buffer", "absorbed state", "HMAC.cpp HmacState")], "Finalize/Compute output")
p("C07", "A KDF's output is the published stream for its inputs, within its limits",
  "Every key derivation function generates, from its key, salt and info, the output its definition gives, and successive generate calls continue that stream block by block without repeating any of it. "
  "Output placed at an offset touches only the requested bytes, reuse after re-initialization equals a fresh instance, and requests beyond the construction's limit are refused.",
  ["inputs", "histories", "configurations"],
  "every KDF and primitive, key/salt/info lengths, request size sequences, buffer offsets and re-initialization histories",
  "Vectors cover a single generate call per instance.",
  ["HKDF.cpp", "KDF2.cpp", "PBKDF2.cpp", "SCBKDF.cpp", "SHAKE.cpp", "KdfFromName.cpp", "KdfBase.cpp"],
  [("counter-mode expansion", "HKDF.cpp Expand"), ("squeeze", "SHAKE.cpp Expand")],
  [("block counter", "next output block index", "HKDF.cpp HkdfState::Counter")], "Generate output")
p("C08", "A DRBG's output is determined by its seed history and never repeats",
  "Given the same seed material, customization and provider bytes, a deterministic generator produces the same output sequence, equal to its construction's definition, and its automatic and explicit reseeds happen at the documented thresholds and change the stream. "
  "Requests above the per-request limit, or past the reseed limit, are refused, and consecutive requests never return the same generator blocks again.",
  ["inputs", "histories", "configurations"],
  "every DRBG and primitive, seed/nonce/info sizes, request size sequences, reseed thresholds, parallel setting and re-initialization history",
  "Tests check vectors of one request and statistical properties of the output.",
  ["BCG.cpp", "CSG.cpp", "HCG.cpp", "DrbgBase.cpp", "DrbgFromName.cpp"],
  [("generate and reseed", "CSG.cpp GetRandom"), ("counter generation", "BCG.cpp Generate")],
  [("reseed counters", "bytes since seeding, number of reseeds", "CSG.cpp CsgState")], "Generate/Update output and exceptions")
p("C09", "Random generators fill exactly what is asked, in range, never reusing bytes",
  "A pseudo-random generator writes exactly the requested bytes and hands out each generated byte at most once; bounded integer requests always return a value inside the documented bounds and terminate, for every bound. ",
  ["inputs", "histories", "configurations"],
  "every PRNG, request-size history, integer type and bound pair",
  "Tests draw a few values; boundary bounds, buffer exhaustion boundaries and offsets are not reached.",
  ["SecureRandom.cpp", "BCR.cpp", "CSR.cpp", "HCR.cpp", "PrngBase.cpp", "PrngFromName.cpp"],
  [("buffer refill", "SecureRandom.cpp Generate"), ("range reduction", "SecureRandom.cpp NextUInt32")],
  [("random buffer and index", "unused bytes", "SecureRandom.cpp")], "Generate/NextXxx results")
p("C10", "Padding is removed exactly as it was added",
  "For each padding scheme, padding a block from any position and then asking for the block length finds exactly where the added bytes begin, for every block size and message content, and data bytes before the padding are unchanged. "
  "A block that is not validly padded is reported as such.",
  ["inputs", "configurations"], "every scheme, block size, pad position and message tail content, including tails that look like padding",
  "Tests try a few positions with random content; ambiguous tails and extremes need enumeration.",
  ["ESP.cpp", "PKCS7.cpp", "X923.cpp", "ZeroOne.cpp", "PaddingFromName.cpp"],
  [("add and measure padding", "PKCS7.cpp")], None, "AddPadding / GetPaddingLength / GetBlockLength")
p("C11", "Byte streams behave as one array with a position",
  "Memory, file and secure streams behave as a byte array with a position: every read returns the bytes last written there, reads never exceed the request or the end, writes extend or overwrite in place, and position and length always match. "
  "The secure stream does so although it holds its contents encrypted; a file stream leaves exactly those bytes in the file, whether read back through it or after it is closed and opened again.",
  ["inputs", "histories"], "every interleaving of read, write, seek, set-length, copy, reset and close operations with any size and offset",
  "Tests write once and read once.",
  ["MemoryStream.cpp", "FileStream.cpp", "SecureStream.cpp", "IByteStream.h"],
  [("read/write at position", "MemoryStream.cpp Read/Write"), ("file access", "FileStream.cpp")],
  [("contents, position, length", "abstract array", "MemoryStream.cpp")], "IByteStream calls")
p("C12", "Typed stream readers and writers are inverse and bounded",
  "A sequence of integers and byte arrays written with the stream writer is returned unchanged by the same sequence of reads, in little-endian layout and independent of buffer growth. "
  "Reading past the end fails with an exception and consumes nothing.",
  ["inputs", "histories"], "every sequence of typed writes, initial capacity, array offset and read order",
  "Tests write one value of each type.",
  ["StreamReader.cpp", "StreamReader.h", "StreamWriter.cpp", "StreamWriter.h"],
  [("typed access", "StreamWriter.h Write")], None, "StreamReader/StreamWriter calls")
p("C13", "Key containers preserve, serialize and seal key material exactly",
  "A symmetric key holds exactly the key, nonce and info it was given, and serializing then de-serializing it, cloning it, or sealing it in the encrypted container and extracting it again gives back exactly the same three fields; resetting erases them. "
  "Generated keys have exactly the requested field sizes.",
  ["inputs", "histories", "configurations"], "every combination of field lengths (including empty fields), security policy and operation history",
  "Tests use one key of typical size.",
  ["SymmetricKey.cpp", "SymmetricSecureKey.cpp", "SymmetricKeyGenerator.cpp", "SymmetricKeySize.cpp"],
  [("serialization layout", "SymmetricKey.cpp Serialize"), ("sealing", "SymmetricSecureKey.cpp Encipher")], None, "Key/IV/Info/Serialize/DeSerialize/Generate")
p("C14", "A signature verifies if and only if it is genuine",
  "For every signature scheme and parameter set, a signed message verifies under the matching public key and returns the message; any change to the signature, the message or the key makes verification return false. "
  "Operations in the wrong role or before initialization are refused. "
  "A stateful key uses each of its one-time keys at most once and refuses to sign when they are used up.",
  ["inputs", "histories", "configurations"], "every scheme and parameter set, message length, tamper position, wrong key, and order of operations",
  "Tests tamper with a few positions of one signature.",
  ["Dilithium.cpp", "DLTM4016.cpp", "DLTM4880.cpp", "ECDSA.cpp", "EC25519.cpp", "SphincsPlus.cpp", "XMSS.cpp", "XmssCore.cpp", "ECDSABase.cpp", "SPXBase.cpp"],
  [("verification equation", "Dilithium.cpp Verify")], None, "Sign/Verify results")
p("C15", "Key encapsulation agrees between honest parties and only them",
  "For every encapsulation or key-exchange scheme and parameter set, decapsulating a genuine ciphertext with the matching private key yields the sender's secret, with or without a domain key. "
  "A tampered ciphertext, another key pair or a different domain key never yields that secret, and never crashes.",
  ["inputs", "histories", "configurations"], "every scheme and parameter set, secret size, domain key, tamper position and key pair",
  "Tests run a few exchanges and one tamper.",
  ["Kyber.cpp", "McEliece.cpp", "ECDH.cpp", "EC25519.cpp", "MPKCN4608T96.cpp", "MPKCN6688T128.cpp", "MPKCN6960T119.cpp", "MPKCN8192T128.cpp", "KyberBase.cpp"],
  [("re-encryption check", "KyberBase.cpp CCADecrypt")], None, "Encapsulate/Decapsulate results")
p("C16", "Asymmetric keys survive serialization and keep their identity",
  "An asymmetric key reports the key class, primitive and parameter set it was created with, and serializing then de-serializing it gives an equal key that works in place of the original. ",
  ["inputs", "configurations"], "every primitive, parameter set, key class and generated key",
  "Tests serialize one key per primitive.",
  ["AsymmetricKey.cpp", "AsymmetricKeyPair.cpp", "AsymmetricSecureKey.cpp"],
  [("header encoding", "AsymmetricKey.cpp Serialize")], None, "Serialize and accessors")
p("C17", "The memory pool never hands out overlapping or out-of-range blocks",
  "Every block handed out by the secure memory pool lies inside the pool, is aligned, and overlaps no other live block; freeing returns exactly that space, so that after everything is freed the whole pool can be allocated again. "
  "Growing or shrinking a secure container preserves its contents, inserting, extracting, copying and moving between containers transfers exactly the elements named, and memory a secure container gives back is erased.",
  ["inputs", "histories", "schedules"], "every sequence (and thread interleaving) of allocate, free and re-initialize with any sizes and alignments",
  "No test allocates and frees in varied orders.",
  ["MemoryPool.cpp", "MemoryPool.h", "LockingAllocator.cpp", "SecureVector.h", "SecureMemory.cpp"],
  [("free list", "MemoryPool.cpp Allocate/Deallocate")], [("free list", "unused ranges", "MemoryPool.cpp")], "Allocate/Deallocate results")
p("C18", "Parallel helpers run each task exactly once and wait for all",
  "A parallel loop runs its body exactly once for each index of the range, and a pooled task runs exactly once; the call or the destruction returns only after all of them completed, and no more run at a time than the pool has threads. "
  "Parallel options, however configured, have a parallel block that is a multiple of the minimum size (and at least that where parallel processing is on) and no more threads than processors unless told otherwise.",
  ["schedules", "inputs", "configurations"], "every range, step, thread count and schedule",
  "Tests use the helpers only indirectly with one thread count.",
  ["ParallelTools.cpp", "ThreadPool.h", "AsyncThread.h", "ParallelOptions.cpp"],
  [("loop splitting", "ParallelTools.cpp ParallelFor"), ("queue and workers", "ThreadPool.h")], None, "callbacks observed")
p("C19", "Names and factories identify the primitive they stand for",
  "Every enumerated algorithm converts to a name and back to the same value, unknown names map to the none value, and each factory returns an object that reports exactly the type, name and sizes requested. ",
  ["inputs", "configurations"], "every enumeration value and every factory",
  "Tests instantiate the factories for a subset.",
  ["DigestFromName.cpp", "MacFromName.cpp", "KdfFromName.cpp", "BlockCipherFromName.cpp", "CipherModeFromName.cpp", "AeadModeFromName.cpp", "StreamCipherFromName.cpp", "DrbgFromName.cpp", "PrngFromName.cpp", "ProviderFromName.cpp", "PaddingFromName.cpp", "AsymmetricSignerFromName.cpp", "AsymmetricCipherFromName.cpp"],
  [("enumeration conversion", "Digests.h DigestConvert")], None, "FromName/ToName and factory objects")
p("C20", "Integer and memory utilities compute exactly their arithmetic",
  "Counter increments, endian conversions, rotations, memory copy/clear/xor and constant-time comparison compute exactly their mathematical result for every length and value, change only the bytes they name, and report equality if and only if the operands are equal. ",
  ["inputs", "histories"], "every counter value and width, buffer length around SIMD widths, offset and differing position",
  "Tests use fixed arrays; carries through all bytes and non-multiple lengths are not enumerated.",
  ["IntegerTools.h", "MemoryTools.h"],
  [("counter increment", "IntegerTools.h BeIncrement8/LeIncrement"), ("wide copies", "MemoryTools.h Copy/XOR")], None, "utility results")
p("C21", "Processing streams give the same result as the primitive they wrap",
  "Encrypting, hashing or authenticating a stream or an array through the stream helpers gives exactly the result of applying the configured primitive to the same bytes, padding included where the mode needs it, and decrypting returns the original bytes and length. ",
  ["inputs", "histories", "configurations"], "every mode, padding, message length, stream position and parallel setting",
  "Tests use a few random sizes.",
  ["CipherStream.cpp", "DigestStream.cpp", "MacStream.cpp"],
  [("block loop and final block", "CipherStream.cpp BlockTransform")], None, "Write/Compute output")
p("C22", "Block ciphers are permutations; wide transforms equal block-by-block",
  "For every block cipher, key size and key schedule, decryption inverts encryption of every block, the standard configuration equals the published cipher, and the multi-block SIMD transforms equal the single-block transform applied to each block. ",
  ["inputs", "histories", "configurations"], "every cipher, key size, schedule extension, distribution code, block content and width",
  "Vectors cover a few blocks; wide transforms are compared on few inputs.",
  ["RHX.cpp", "SHX.cpp", "Serpent.h", "Rijndael.h", "BlockCipherFromName.cpp"],
  [("wide transform", "RHX.cpp Transform1024")], None, "EncryptBlock/DecryptBlock/Transform")
p("C23", "Misuse is refused with the documented exception and changes nothing",
  "A symmetric primitive (MAC, KDF, DRBG, digest, cipher, cipher mode) that is given a key, nonce or info size it does not accept, is asked for output it was not keyed for, that does not fit the array, or that exceeds its documented maximum, is given too short an update seed, associated data out of order or outside the array, or an illegal parallel degree, raises the library's exception type for that primitive and writes nothing. "
  "After the refused call the object behaves as if the call had not been made, and every size it lists as legal is accepted.",
  ["inputs", "histories", "configurations"], "every primitive, illegal size, and position of the misuse in a history of valid calls",
  "Tests check one exception per class, never what the object does afterwards.",
  ["HMAC.cpp", "KMAC.cpp", "CMAC.cpp", "GMAC.cpp", "Poly1305.cpp", "HKDF.cpp", "KDF2.cpp", "PBKDF2.cpp", "SHAKE.cpp", "SCBKDF.cpp", "RCS.cpp", "RWS.cpp", "CSX512.cpp", "ChaChaP20.cpp", "TSX512.cpp", "GCM.cpp", "HBA.cpp", "BCG.cpp", "CSG.cpp", "HCG.cpp"],
  [("argument checks", "RCS.cpp Initialize")], None, "exceptions and later outputs")
p("C24", "Every form of a permutation and every sponge helper computes one function",
  "Each published form of a permutation or compression function (compact, unrolled, and each lane of the 4, 8 and 16 way SIMD forms of Keccak, SHA2, Blake2, ChaCha, CSX, Threefish and GHASH), at every number of rounds it accepts, maps each state and input to what the scalar definition gives, and touches no other lane. "
  "The static helpers built on them (Keccak Absorb, Incremental, Squeeze, Customize, Finalize, XOF, cSHAKE, MAC, Compute; SHA2 Compute and HMAC) equal the standard construction for every length, offset and division of the message.",
  ["inputs", "histories", "configurations"], "every form, round count, lane, state, message length and cut, custom string and key length, output length and offset",
  "The suite compares forms on an all-zero state or random samples and never the wide forms lane by lane.",
  ["Keccak.h", "SHA2.h", "Blake.h", "ChaCha.h", "CSX512.cpp", "Threefish.h", "Skein.h", "CMUL.cpp"],
  [("permutation forms", "Keccak.h PermuteR24P4x1600H"), ("sponge helpers", "Keccak.h Incremental")], None, "states and outputs")
p("C25", "SIMD integer types act on every lane as the scalar integer type does",
  "For UInt128, UShort128, UInt256 and ULong256, each arithmetic, bitwise, shift, rotation and comparison operator, in its binary, compound, member and static form, gives in every lane what the unsigned integer of the lane's width gives (Abs and ShiftRA: the signed one; comparisons: all ones or zero), and changes only its destination. "
  "Increment and decrement change the object, byte swaps reverse each lane, and loads, stores and the transposed forms are inverse to each other.",
  ["inputs", "histories"], "every operator, operand value, shift count, register aliasing and sequence of operations",
  "The suite's SIMD test is empty; the library itself uses only some operators, which the fast paths of ciphers and hashes depend on.",
  ["UInt128.h", "UShort128.h", "UInt256.h", "ULong256.h"],
  [("operators", "UInt256.h operator ++"), ("64-bit lanes", "ULong256.h operator *")], None, "lane values after each operation")
p("C26", "A digest's parameter block survives writing, reading and copying",
  "For SHA2Params, KeccakParams, BlakeParams and SkeinParams, writing a block and reading it gives a block with the same value in every field; the encoding has the documented layout; Clone and DeepCopy give equal blocks that are independent of the original; two blocks are Equal exactly when every field is. "
  "An encoding that was cut short is refused with the digest exception.",
  ["inputs", "histories"], "every class, output size, field value and sequence of changes, copies, writes and reads",
  "The suite writes and reads one default block per digest.",
  ["SHA2Params.cpp", "KeccakParams.cpp", "BlakeParams.cpp", "SkeinParams.cpp"],
  [("serialization", "SkeinParams.cpp ToBytes"), ("equality", "SHA2Params.cpp Equals")], None, "encodings, getters, comparisons")
p("C27", "Asymmetric primitives interoperate with their published definition",
  "Keys, signatures, ciphertexts and shared secrets of Kyber, Dilithium, Ed25519 and X25519 are the values that the published algorithm gives for the same random input, with the library's documented choice of hash and round-3 parameters. "
  "Verification accepts exactly the signatures the definition accepts: signatures with an unreduced or shifted scalar, a wrong point, a small-order key, a long response or a malformed hint are refused, and an altered Kyber ciphertext gives the implicit-rejection secret.",
  ["inputs"], "every parameter set, seed, message, ciphertext and every way a signature or a key can be outside the definition",
  "The suite's known answers are a few seeds; signatures and points that only an outside implementation makes are not among them.",
  ["Kyber.cpp", "Dilithium.cpp", "DLTMPolyMath.cpp", "KyberBase.cpp", "ECDSA.cpp", "ECDH.cpp", "EC25519.cpp"],
  [("signature acceptance", "DLTMPolyMath.cpp"), ("scalar reduction and point decoding", "EC25519.cpp")], None, "keys, signatures, ciphertexts, secrets and verdicts")
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        assert x["statement"].strip().count(". ") <= 2
        x["statement"] = x["statement"].strip()
        for fn in x["anchors"]["files"]:
            if not os.path.exists("/repo/" + fn): print("missing", x["id"], fn)
        f.write(json.dumps(x) + "\n")
