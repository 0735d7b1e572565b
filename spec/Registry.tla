-------------------------------- MODULE Registry -------------------------------
(* The registry of algorithms: every enumeration with its members, the names of *)
(* the members, and the factories with what each has to make.  A member's name  *)
(* is its identifier; converting to the name and back is the identity; a name   *)
(* that is no member's means None.  A factory's object reports the type (or the *)
(* family, when its name carries the variant), the name and the sizes of what   *)
(* was asked for; a type that is no member, or the parameter set of another     *)
(* primitive, is refused.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT What
VARIABLE c

Enums == [
  AeadModes |-> [None |-> 0, GCM |-> 6, HBA |-> 7, HBAH256 |-> 8, HBAH512 |-> 9, HBAS256 |-> 10, HBAS512 |-> 11],
  AsymmetricCiphers |-> [None |-> 0, Kyber |-> 2, McEliece |-> 3, ECDH |-> 1],
  AsymmetricParameters |-> [None |-> 0, DLTMS1P2544 |-> 1, DLTMS3P4016 |-> 2, DLTMS5P4880 |-> 3, ECDHS1P25519K |-> 5, ECDHS2P25519S |-> 6, ECDSAS1P25519K |-> 7, ECDSAS2P25519S |-> 8, KYBERS1P1632 |-> 9, KYBERS3P2400 |-> 10, KYBERS5P3168 |-> 11, KYBERS6P3936 |-> 12, MPKCS3N4608T96 |-> 13, MPKCS3N6960T119 |-> 14, MPKCS4N6688T128 |-> 15, MPKCS5N8192T128 |-> 16, SPXPS1S128SHAKE |-> 17, SPXPS3S192SHAKE |-> 18, SPXPS5S256SHAKE |-> 19, SPXPS6S512SHAKE |-> 20, XMSSSHA2256H10 |-> 21, XMSSSHA2256H16 |-> 22, XMSSSHA2256H20 |-> 23, XMSSSHA2512H10 |-> 24, XMSSSHA2512H16 |-> 25, XMSSSHA2512H20 |-> 26, XMSSSHAKE256H10 |-> 27, XMSSSHAKE256H16 |-> 28, XMSSSHAKE256H20 |-> 29, XMSSSHAKE512H10 |-> 30, XMSSSHAKE512H16 |-> 31, XMSSSHAKE512H20 |-> 32, XMSSMTSHA2256H20D2 |-> 33, XMSSMTSHA2256H20D4 |-> 34, XMSSMTSHA2256H40D2 |-> 35, XMSSMTSHA2256H40D4 |-> 36, XMSSMTSHA2256H40D8 |-> 37, XMSSMTSHA2256H60D3 |-> 38, XMSSMTSHA2256H60D6 |-> 39, XMSSMTSHA2256H60D12 |-> 40, XMSSMTSHA2512H20D2 |-> 41, XMSSMTSHA2512H20D4 |-> 42, XMSSMTSHA2512H40D2 |-> 43, XMSSMTSHA2512H40D4 |-> 44, XMSSMTSHA2512H40D8 |-> 45, XMSSMTSHA2512H60D3 |-> 46, XMSSMTSHA2512H60D6 |-> 47, XMSSMTSHA2512H60D12 |-> 48, XMSSMTSHAKE256H20D2 |-> 49, XMSSMTSHAKE256H20D4 |-> 50, XMSSMTSHAKE256H40D2 |-> 51, XMSSMTSHAKE256H40D4 |-> 52, XMSSMTSHAKE256H40D8 |-> 53, XMSSMTSHAKE256H60D3 |-> 54, XMSSMTSHAKE256H60D6 |-> 55, XMSSMTSHAKE256H60D12 |-> 56, XMSSMTSHAKE512H20D2 |-> 57, XMSSMTSHAKE512H20D4 |-> 58, XMSSMTSHAKE512H40D2 |-> 59, XMSSMTSHAKE512H40D4 |-> 60, XMSSMTSHAKE512H40D8 |-> 61, XMSSMTSHAKE512H60D3 |-> 62, XMSSMTSHAKE512H60D6 |-> 63, XMSSMTSHAKE512H60D12 |-> 64],
  AsymmetricPrimitives |-> [None |-> 0, ECDH |-> 1, Kyber |-> 2, McEliece |-> 3, Dilithium |-> 5, ECDSA |-> 6, SphincsPlus |-> 9, XMSS |-> 10, XMSSMT |-> 11],
  AsymmetricSigners |-> [None |-> 0, Dilithium |-> 5, ECDSA |-> 6, SphincsPlus |-> 9, XMSS |-> 10, XMSSMT |-> 11],
  BlockCipherExtensions |-> [None |-> 0, HKDF256 |-> 2, HKDF512 |-> 3, SHAKE128 |-> 8, SHAKE256 |-> 9, SHAKE512 |-> 10],
  BlockCiphers |-> [None |-> 0, AES |-> 1, Serpent |-> 2, RHXH256 |-> 39, RHXH512 |-> 40, RHXS256 |-> 41, RHXS512 |-> 42, SHXH256 |-> 45, SHXH512 |-> 46, SHXS256 |-> 47, SHXS512 |-> 48],
  CipherModes |-> [None |-> 0, ACM |-> 1, CBC |-> 2, CFB |-> 3, CTR |-> 4, ECB |-> 5, GCM |-> 6, HBA |-> 7, HBAH256 |-> 8, HBAH512 |-> 9, HBAS256 |-> 10, HBAS512 |-> 11, ICM |-> 12, OFB |-> 13],
  Digests |-> [None |-> 0, Blake256 |-> 1, Blake512 |-> 2, SHA3256 |-> 3, SHA3512 |-> 4, SHA2256 |-> 5, SHA2512 |-> 6, SHAKE128 |-> 8, SHAKE256 |-> 9, SHAKE512 |-> 10, Skein256 |-> 13, Skein512 |-> 14, Skein1024 |-> 15],
  DilithiumParameters |-> [None |-> 0, DLTMS1P2544 |-> 1, DLTMS3P4016 |-> 2, DLTMS5P4880 |-> 3],
  Drbgs |-> [None |-> 0, BCG |-> 1, CSG |-> 2, HCG |-> 3],
  ECDHParameters |-> [None |-> 0, ECDHS1P25519K |-> 5, ECDHS2P25519S |-> 6],
  ECDSAParameters |-> [None |-> 0, ECDSAS1P25519K |-> 7, ECDSAS2P25519S |-> 8],
  ExceptionTypes |-> [None |-> 0, CryptoAsymmetricException |-> 1, CryptoAuthenticationFailure |-> 2, CryptoCipherModeException |-> 3, CryptoDigestException |-> 4, CryptoException |-> 5, CryptoGeneratorException |-> 6, CryptoKdfException |-> 7, CryptoKmsException |-> 8, CryptoMacException |-> 9, CryptoPaddingException |-> 10, CryptoProcessingException |-> 11, CryptoRandomException |-> 12, CryptoSymmetricException |-> 13],
  KdfDigests |-> [None |-> 0, SHA2256 |-> 5, SHA2512 |-> 6, SHAKE128 |-> 8, SHAKE256 |-> 9, SHAKE512 |-> 10],
  Kdfs |-> [None |-> 0, HKDS512 |-> 1, HKDF256 |-> 2, HKDF512 |-> 3, KDF2256 |-> 4, KDF2512 |-> 5, PBKDF2256 |-> 6, PBKDF2512 |-> 7, SHAKE128 |-> 8, SHAKE256 |-> 9, SHAKE512 |-> 10, SCBKDF128 |-> 13, SCBKDF256 |-> 14, SCBKDF512 |-> 15, SCBKDF1024 |-> 16, HKDS128 |-> 20, HKDS256 |-> 21],
  KmacModes |-> [None |-> 0, KMAC128 |-> 16, KMAC256 |-> 17, KMAC512 |-> 18],
  Kms |-> [None |-> 0, HKDS128 |-> 1, HKDS256 |-> 2, HKDS512 |-> 3],
  KpaModes |-> [None |-> 0, KPA128 |-> 13, KPA256 |-> 14, KPA512 |-> 15],
  KyberParameters |-> [None |-> 0, KYBERS1P1632 |-> 9, KYBERS3P2400 |-> 10, KYBERS5P3168 |-> 11, KYBERS6P3936 |-> 12],
  Macs |-> [None |-> 0, CMAC |-> 1, CMACRHXH256 |-> 2, CMACRHXH512 |-> 3, CMACRHXS256 |-> 4, CMACRHXS512 |-> 5, GMAC |-> 6, GMACRHXH256 |-> 7, GMACRHXH512 |-> 8, GMACRHXS256 |-> 9, GMACRHXS512 |-> 10, HMACSHA2256 |-> 11, HMACSHA2512 |-> 12, KPA128 |-> 13, KPA256 |-> 14, KPA512 |-> 15, KMAC128 |-> 16, KMAC256 |-> 17, KMAC512 |-> 18, Poly1305 |-> 19],
  McElieceParameters |-> [None |-> 0, MPKCS3N4608T96 |-> 13, MPKCS3N6960T119 |-> 14, MPKCS4N6688T128 |-> 15, MPKCS5N8192T128 |-> 16],
  PaddingModes |-> [None |-> 0, ESP |-> 1, PKCS7 |-> 2, X923 |-> 3, ZeroOne |-> 4],
  Prngs |-> [None |-> 0, BCR |-> 1, CSR |-> 6, CSRC512 |-> 7, CSRC1024 |-> 8, HCR |-> 9, HCRS512 |-> 10],
  Providers |-> [None |-> 0, ACP |-> 1, CJP |-> 2, CSP |-> 3, ECP |-> 4, RDP |-> 5],
  SHA2Digests |-> [None |-> 0, SHA2256 |-> 5, SHA2512 |-> 6],
  SecurityPolicy |-> [None |-> 0, SPL256 |-> 1, SPL256AE |-> 2, SPL512 |-> 3, SPL512AE |-> 4, SPL1024 |-> 5, SPL1024AE |-> 6],
  ShakeModes |-> [None |-> 0, SHAKE128 |-> 8, SHAKE256 |-> 9, SHAKE512 |-> 10],
  SphincsPlusParameters |-> [None |-> 0, SPXPS1S128SHAKE |-> 17, SPXPS3S192SHAKE |-> 18, SPXPS5S256SHAKE |-> 19, SPXPS6S512SHAKE |-> 20],
  StreamAuthenticators |-> [None |-> 0, KPA |-> 1, KMAC |-> 2, HMACSHA2256 |-> 11, HMACSHA2512 |-> 12, KMAC256 |-> 17, KMAC512 |-> 18, Poly1305 |-> 19],
  StreamCiphers |-> [None |-> 0, ChaChaP20 |-> 96, CSXR20K256 |-> 97, CSX512 |-> 98, CSXR80K512 |-> 99, RCS |-> 160, RCSK256 |-> 161, RCSK512 |-> 162, RCSK1024 |-> 163, RWS |-> 170, RWSK256 |-> 171, RWSK512 |-> 172, RWSK1024 |-> 173, TSX256 |-> 128, TSXR72K256 |-> 129, TSX512 |-> 130, TSXR96K512 |-> 131, TSX1024 |-> 132, TSXR120K512 |-> 133],
  SymmetricCiphers |-> [None |-> 0, AES |-> 1, Serpent |-> 2, RHXH256 |-> 39, RHXH512 |-> 40, RHXS256 |-> 41, RHXS512 |-> 42, SHXH256 |-> 45, SHXH512 |-> 46, SHXS256 |-> 47, SHXS512 |-> 48, ChaChaP20 |-> 96, CSXR20K256 |-> 97, CSX512 |-> 98, CSXR80K512 |-> 99, RCS |-> 160, RCSK256 |-> 161, RCSK512 |-> 162, RCSK1024 |-> 163, RWS |-> 170, RWSK256 |-> 171, RWSK512 |-> 172, RWSK1024 |-> 173, TSX256 |-> 128, TSXR72K256 |-> 129, TSX512 |-> 130, TSXR96K512 |-> 131, TSX1024 |-> 132, TSXR120K512 |-> 133],
  ThreefishModes |-> [None |-> 0, TSX256 |-> 128, TSXR72K256 |-> 129, TSX512 |-> 130, TSXR96K512 |-> 131, TSX1024 |-> 132, TSXR120K512 |-> 133],
  XmssParameters |-> [None |-> 0, XMSSSHA2256H10 |-> 21, XMSSSHA2256H16 |-> 22, XMSSSHA2256H20 |-> 23, XMSSSHA2512H10 |-> 24, XMSSSHA2512H16 |-> 25, XMSSSHA2512H20 |-> 26, XMSSSHAKE256H10 |-> 27, XMSSSHAKE256H16 |-> 28, XMSSSHAKE256H20 |-> 29, XMSSSHAKE512H10 |-> 30, XMSSSHAKE512H16 |-> 31, XMSSSHAKE512H20 |-> 32, XMSSMTSHA2256H20D2 |-> 33, XMSSMTSHA2256H20D4 |-> 34, XMSSMTSHA2256H40D2 |-> 35, XMSSMTSHA2256H40D4 |-> 36, XMSSMTSHA2256H40D8 |-> 37, XMSSMTSHA2256H60D3 |-> 38, XMSSMTSHA2256H60D6 |-> 39, XMSSMTSHA2256H60D12 |-> 40, XMSSMTSHA2512H20D2 |-> 41, XMSSMTSHA2512H20D4 |-> 42, XMSSMTSHA2512H40D2 |-> 43, XMSSMTSHA2512H40D4 |-> 44, XMSSMTSHA2512H40D8 |-> 45, XMSSMTSHA2512H60D3 |-> 46, XMSSMTSHA2512H60D6 |-> 47, XMSSMTSHA2512H60D12 |-> 48, XMSSMTSHAKE256H20D2 |-> 49, XMSSMTSHAKE256H20D4 |-> 50, XMSSMTSHAKE256H40D2 |-> 51, XMSSMTSHAKE256H40D4 |-> 52, XMSSMTSHAKE256H40D8 |-> 53, XMSSMTSHAKE256H60D3 |-> 54, XMSSMTSHAKE256H60D6 |-> 55, XMSSMTSHAKE256H60D12 |-> 56, XMSSMTSHAKE512H20D2 |-> 57, XMSSMTSHAKE512H20D4 |-> 58, XMSSMTSHAKE512H40D2 |-> 59, XMSSMTSHAKE512H40D4 |-> 60, XMSSMTSHAKE512H40D8 |-> 61, XMSSMTSHAKE512H60D3 |-> 62, XMSSMTSHAKE512H60D6 |-> 63, XMSSMTSHAKE512H60D12 |-> 64]]

Range(f) == {f[x] : x \in DOMAIN f}
Vals(e) == Range(Enums[e])
Value(e, n) == IF n \in DOMAIN Enums[e] THEN Enums[e][n] ELSE 0
NameOf(e, v) == IF v \in Vals(e) THEN CHOOSE n \in DOMAIN Enums[e] : Enums[e][n] = v ELSE "None"
\* enumerations that are parts of others and convert through them
Parent == [BlockCiphers |-> "SymmetricCiphers", StreamCiphers |-> "SymmetricCiphers", ThreefishModes |-> "SymmetricCiphers", AeadModes |-> "CipherModes",
           KyberParameters |-> "AsymmetricParameters", McElieceParameters |-> "AsymmetricParameters", DilithiumParameters |-> "AsymmetricParameters",
           ECDHParameters |-> "AsymmetricParameters", ECDSAParameters |-> "AsymmetricParameters", SphincsPlusParameters |-> "AsymmetricParameters", XmssParameters |-> "AsymmetricParameters",
           KmacModes |-> "Macs", KpaModes |-> "Macs", StreamAuthenticators |-> "Macs", AsymmetricCiphers |-> "AsymmetricPrimitives", AsymmetricSigners |-> "AsymmetricPrimitives",
           SHA2Digests |-> "Digests", ShakeModes |-> "Digests", KdfDigests |-> "Digests", BlockCipherExtensions |-> "Kdfs"]
Whole(e) == IF e \in DOMAIN Parent THEN Parent[e] ELSE e
\* members of a part that its whole knows under another value
Own == {<<"StreamAuthenticators", "KPA">>, <<"StreamAuthenticators", "KMAC">>}
Lawful == /\ \A e \in DOMAIN Enums : Enums[e]["None"] = 0 /\ Cardinality(Vals(e)) = Cardinality(DOMAIN Enums[e])
          /\ \A e \in DOMAIN Enums : \A n \in DOMAIN Enums[e] : NameOf(e, Value(e, n)) = n
          /\ \A e \in DOMAIN Parent : \A n \in DOMAIN Enums[e] : <<e, n>> \in Own \/ Enums[Parent[e]][n] = Enums[e][n]
\* -------------------------------------------------------------- conversions
\* enumerations with a conversion class
Named == DOMAIN Enums \ {"BlockCipherExtensions", "KdfDigests"}
Alias == {"RHX", "Rijndael", "SHX", "HBA"}
AllNames == UNION {DOMAIN Enums[e] : e \in DOMAIN Enums}
Short(n) == SubSeq(n, 1, Len(n) - 1)
Odd(n) == {Short(n), n \o "0", "X" \o n, n \o " ", SubSeq(n, 2, Len(n))} 
Strange == {"A", "unknown", "NONE", "none", "AES-256", "SHA", "0", "256"}
Free(e, n) == n \in Alias \/ (n \notin DOMAIN Enums[e] /\ n \in DOMAIN Enums[Whole(e)])
RoundCases(z) == UNION {{[k |-> "round", e |-> e, v |-> Enums[e][n], n |-> n] : n \in DOMAIN Enums[e]} : e \in Named}
ToCases(z) == UNION {{[k |-> "to", e |-> e, v |-> v, n |-> NameOf(e, v)] : v \in (0 .. 255) \ (Vals(Whole(e)) \ Vals(e))} : e \in Named}
FromCases(z) == UNION {{[k |-> "from", e |-> e, v |-> Value(e, n), n |-> n] : n \in {x \in AllNames \cup Strange \cup UNION {Odd(y) : y \in DOMAIN Enums[e]} : x # "" /\ ~Free(e, x)}} : e \in Named}
\* ---------------------------------------------------------------- factories
\* f: factory, a: its arguments, t: types it may report, n: the name, s: what else it reports; or refused
Refuse(f, a) == [k |-> "make", f |-> f, a |-> a, r |-> "refused"]
Makes(f, a, t, n, s) == [k |-> "make", f |-> f, a |-> a, r |-> "made", t |-> t, n |-> n, s |-> s]
E(e, n) == Enums[e][n]
Yes(b) == IF b THEN 1 ELSE 0
Out(e) == (0 .. 255) \ (Vals(e) \ {0})
DigestSizes == [Blake256 |-> <<32, 64>>, Blake512 |-> <<64, 128>>, SHA3256 |-> <<32, 136>>, SHA3512 |-> <<64, 72>>, SHA2256 |-> <<32, 64>>, SHA2512 |-> <<64, 128>>,
                Skein256 |-> <<32, 32>>, Skein512 |-> <<64, 64>>, Skein1024 |-> <<128, 128>>]
Pair(p) == ToString(p[1]) \o " " \o ToString(p[2])
DigestMake(z) == {Makes("digest", <<E("Digests", n), 0>>, {E("Digests", n)}, n, Pair(DigestSizes[n])) : n \in DOMAIN DigestSizes}
        \cup {Makes("digest", <<E("Digests", n), 1>>, {E("Digests", n)}, "*" \o n, Pair(DigestSizes[n])) : n \in DOMAIN DigestSizes}
        \cup {Makes("digestsizes", <<E("Digests", n), 0>>, {}, "", Pair(DigestSizes[n])) : n \in DOMAIN DigestSizes}
        \cup {Refuse("digest", <<v, 0>>) : v \in Out("Digests")}
\* tag size and key sizes
MacSizes == [HMACSHA2256 |-> <<32, "32/0/0,64/0/32,64/0/64">>, HMACSHA2512 |-> <<64, "64/0/0,128/0/64,128/0/128">>, KPA128 |-> <<16, "16/0/0">>, KPA256 |-> <<32, "32/0/0">>, KPA512 |-> <<64, "64/0/0">>,
             KMAC128 |-> <<16, "16/0/0">>, KMAC256 |-> <<32, "32/0/0">>, KMAC512 |-> <<64, "64/0/0">>, Poly1305 |-> <<16, "32/0/0">>]
BlockSizes == [AES |-> "16/16/0,24/16/0,32/16/0", Serpent |-> "16/16/0,24/16/0,32/16/0",
               RHXH256 |-> "32/16/13,64/16/13,128/16/13", RHXH512 |-> "32/16/37,64/16/37,128/16/37", RHXS256 |-> "32/16/127,64/16/127,128/16/127", RHXS512 |-> "32/16/63,64/16/63,128/16/63",
               SHXH256 |-> "32/16/13,64/16/13,128/16/13", SHXH512 |-> "32/16/37,64/16/37,128/16/37", SHXS256 |-> "32/16/127,64/16/127,128/16/127", SHXS512 |-> "32/16/63,64/16/63,128/16/63"]
Extended == {"RHXH256", "RHXH512", "RHXS256", "RHXS512"}
MacMake(z) == {Makes("mac", <<E("Macs", n)>>, {E("Macs", n)}, n, ToString(MacSizes[n][1]) \o " " \o MacSizes[n][2]) : n \in DOMAIN MacSizes}
        \cup {Makes("smac", <<E("Macs", n)>>, {E("Macs", n)}, n, ToString(MacSizes[n][1]) \o " " \o MacSizes[n][2]) : n \in {x \in DOMAIN MacSizes : x \in DOMAIN Enums["StreamAuthenticators"] /\ x \notin {"KPA", "KMAC"}}}
        \cup {Makes("mac", <<E("Macs", m \o b)>>, {E("Macs", m), E("Macs", m \o b)}, m \o "-" \o b, "16 " \o (IF m = "CMAC" THEN "32/0/0,64/0/0,128/0/0" ELSE "32/16/0,64/16/0,128/16/0")) : m \in {"CMAC", "GMAC"}, b \in Extended}
        \cup {Makes("mac", <<E("Macs", m)>>, {E("Macs", m)}, m \o "-AES", "16 " \o (IF m = "CMAC" THEN "16/0/0,24/0/0,32/0/0" ELSE "16/16/0,24/16/0,32/16/0")) : m \in {"CMAC", "GMAC"}}
        \cup {Refuse("mac", <<v>>) : v \in Out("Macs")} \cup {Refuse("smac", <<v>>) : v \in (0 .. 255) \ Vals("StreamAuthenticators")}
KdfSizes == [HKDF256 |-> "32/0/0,64/0/32,64/64/32", HKDF512 |-> "64/0/0,128/0/64,128/128/64", KDF2256 |-> "32/0/0,64/0/32,64/64/32", KDF2512 |-> "64/0/0,128/0/64,128/128/64",
             PBKDF2256 |-> "32/0/0,64/0/32,64/64/32", PBKDF2512 |-> "64/0/0,128/0/64,128/128/64", SHAKE128 |-> "16/0/0", SHAKE256 |-> "32/0/0", SHAKE512 |-> "64/0/0",
             SCBKDF128 |-> "16/0/0,32/0/0,64/0/0", SCBKDF256 |-> "16/0/0,32/0/0,64/0/0", SCBKDF512 |-> "16/0/0,32/0/0,64/0/0"]
ByDigest == [SHA2256 |-> "HKDF256", SHA2512 |-> "HKDF512", SHAKE256 |-> "SHAKE256", SHAKE512 |-> "SHAKE512"]
KdfMake(z) == {Makes("kdf", <<E("Kdfs", n)>>, {E("Kdfs", n)}, n, KdfSizes[n]) : n \in DOMAIN KdfSizes}
        \cup {Makes("xkdf", <<E("BlockCipherExtensions", n)>>, {E("Kdfs", n)}, n, KdfSizes[n]) : n \in {"HKDF256", "HKDF512", "SHAKE256", "SHAKE512"}}
        \cup {Makes("dkdf", <<E("KdfDigests", n)>>, {E("Kdfs", ByDigest[n])}, ByDigest[n], KdfSizes[ByDigest[n]]) : n \in DOMAIN ByDigest}
        \cup {Refuse("kdf", <<v>>) : v \in Out("Kdfs")} \cup {Refuse("xkdf", <<v>>) : v \in Out("BlockCipherExtensions")} \cup {Refuse("dkdf", <<v>>) : v \in Out("KdfDigests")}
Plain == {"CBC", "CFB", "CTR", "ICM", "OFB"}
HbaName == [HBAH256 |-> "HMACSHA2256", HBAH512 |-> "HMACSHA2512", HBAS256 |-> "KMAC256", HBAS512 |-> "KMAC512"]
BlockMake(z) == {Makes("block", <<E("BlockCiphers", n)>>, {E("BlockCiphers", n)}, n, "16 " \o BlockSizes[n]) : n \in DOMAIN BlockSizes}
        \cup {Refuse("block", <<v>>) : v \in Out("BlockCiphers")}
        \cup {Makes(f, <<E("BlockCiphers", b), E("CipherModes", m)>>, {E("CipherModes", m)}, m \o "-" \o b, ToString(E("BlockCiphers", b)) \o " " \o BlockSizes[b]) : f \in {"mode", "modep"}, b \in DOMAIN BlockSizes, m \in Plain}
        \cup {Makes("mode", <<E("BlockCiphers", b), E("CipherModes", "ECB")>>, {E("CipherModes", "ECB")}, "ECB-" \o b, ToString(E("BlockCiphers", b)) \o " " \o BlockSizes[b]) : b \in DOMAIN BlockSizes}
        \cup {Makes(f, <<E("BlockCiphers", b), E("AeadModes", "GCM")>>, {E("AeadModes", "GCM")}, "GCM-" \o b, IF b \in {"AES", "Serpent"} THEN BlockSizes[b] ELSE "32/16/0,64/16/0,128/16/0") : f \in {"aead", "aeadp"}, b \in DOMAIN BlockSizes}
        \cup {Makes(f, <<E("BlockCiphers", b), E("AeadModes", h)>>, {E("AeadModes", "HBA"), E("AeadModes", h)}, "HBA-" \o b \o "-" \o HbaName[h], BlockSizes[b]) : f \in {"aead", "aeadp"}, b \in DOMAIN BlockSizes, h \in DOMAIN HbaName}
        \cup {Refuse(f, <<E("BlockCiphers", b), v>>) : f \in {"mode", "modep"}, b \in DOMAIN BlockSizes, v \in {0, 14, 15, 200, 255}}
        \cup {Refuse(f, <<E("BlockCiphers", b), v>>) : f \in {"aead", "aeadp"}, b \in DOMAIN BlockSizes, v \in {0, 1, 5, 12, 13, 14, 200, 255}}
        \cup {Refuse("mode", <<0, v>>) : v \in Vals("CipherModes")} \cup {Refuse("aead", <<0, v>>) : v \in Vals("AeadModes")}
\* family, authenticated, name, sizes
StreamInfo == [ChaChaP20 |-> <<"ChaChaP20", FALSE, "ChaChaP20", "32/8/16">>, CSXR20K256 |-> <<"CSXR20K256", TRUE, "ChaChaP20-KMAC256", "32/8/16">>,
               CSX512 |-> <<"CSX512", FALSE, "CSX512", "64/16/48">>, CSXR80K512 |-> <<"CSXR80K512", TRUE, "CSX512-KMAC512", "64/16/48">>,
               TSX256 |-> <<"TSX256", FALSE, "TSX256", "32/16/16">>, TSXR72K256 |-> <<"TSXR72K256", TRUE, "TSX256-KMAC256", "32/16/16">>,
               TSX512 |-> <<"TSX512", FALSE, "TSX512", "64/16/16">>, TSXR96K512 |-> <<"TSXR96K512", TRUE, "TSX512-KMAC512", "64/16/16">>,
               TSX1024 |-> <<"TSX1024", FALSE, "TSX1024", "128/16/16">>, TSXR120K512 |-> <<"TSXR120K512", TRUE, "TSX1024-KMAC512", "128/16/16">>,
               RCS |-> <<"RCS", FALSE, "RCS", "32/32/16,64/32/16">>, RCSK256 |-> <<"RCS", TRUE, "*RCS", "32/32/16,64/32/16">>, RCSK512 |-> <<"RCS", TRUE, "*RCS", "32/32/16,64/32/16">>, RCSK1024 |-> <<"RCS", TRUE, "*RCS", "32/32/16,64/32/16">>,
               RWS |-> <<"RWS", FALSE, "RWS", "16/64/16,32/64/16,64/64/16">>, RWSK256 |-> <<"RWS", TRUE, "*RWS", "16/64/16,32/64/16,64/64/16">>, RWSK512 |-> <<"RWS", TRUE, "*RWS", "16/64/16,32/64/16,64/64/16">>, RWSK1024 |-> <<"RWS", TRUE, "*RWS", "16/64/16,32/64/16,64/64/16">>]
StreamMake(z) == {Makes("stream", <<E("StreamCiphers", n)>>, {E("StreamCiphers", StreamInfo[n][1]), E("StreamCiphers", n)}, StreamInfo[n][3], ToString(Yes(StreamInfo[n][2])) \o " " \o StreamInfo[n][4]) : n \in DOMAIN StreamInfo}
        \cup {Refuse("stream", <<v>>) : v \in Out("StreamCiphers")}
Gens == [SHAKE256 |-> <<"CSG", "32/0/0">>, SHAKE512 |-> <<"CSG", "64/0/0">>, SHA2256 |-> <<"HCG", "16/8/8,32/8/8,64/8/8">>, SHA2512 |-> <<"HCG", "32/8/40,64/8/40,128/8/40">>]
RandomMake(z) == {Makes("drbg", <<E("Drbgs", n)>>, {E("Drbgs", n)}, "*" \o n, "*") : n \in {"BCG", "CSG", "HCG"}}
        \cup {Makes("drbgx", <<E("Drbgs", Gens[d][1]), E("Digests", d), p>>, {E("Drbgs", Gens[d][1])}, "*" \o Gens[d][1] \o "-" \o d, Gens[d][2]) : d \in DOMAIN Gens, p \in Vals("Providers") \ {0}}
        \cup {Makes("drbgx", <<E("Drbgs", "BCG"), E("Digests", d), p>>, {E("Drbgs", "BCG")}, "*BCG", "*") : d \in {"SHA2256"}, p \in Vals("Providers") \ {0}}
        \cup {Makes("prng", <<E("Prngs", n[1]), E("Providers", p)>>, {E("Prngs", n[1]), E("Prngs", n[2])}, "*" \o n[3], "*" \o p) : p \in DOMAIN Enums["Providers"] \ {"None"},
               n \in {<<"BCR", "BCR", "BCR">>, <<"CSR", "CSR", "CSR-SHAKE256">>, <<"CSRC512", "CSR", "CSR-SHAKE512">>, <<"HCR", "HCR", "HCR-SHA2256">>, <<"HCRS512", "HCR", "HCR-SHA2512">>}}
        \cup {Makes("provider", <<p>>, {p}, NameOf("Providers", p), "") : p \in Vals("Providers") \ {0}}
        \cup {Makes("padding", <<p>>, {p}, NameOf("PaddingModes", p), "") : p \in Vals("PaddingModes") \ {0}}
        \cup {Refuse("drbg", <<v>>) : v \in Out("Drbgs")} \cup {Refuse("drbgx", <<v, 9, 1>>) : v \in Out("Drbgs")} \cup {Refuse("prng", <<v, 1>>) : v \in Out("Prngs")}
        \cup {Refuse("prng", <<v, 0>>) : v \in Vals("Prngs")} \cup {Refuse("provider", <<v>>) : v \in Out("Providers")} \cup {Refuse("padding", <<v>>) : v \in Out("PaddingModes")}
\* asymmetric: the parameter set has to be one of the primitive's
Sets == [Kyber |-> "KyberParameters", McEliece |-> "McElieceParameters", Dilithium |-> "DilithiumParameters", SphincsPlus |-> "SphincsPlusParameters", XMSS |-> "XmssParameters"]
Idle == {"KYBERS1P1632"}              \* a member no implementation stands behind
Asym(f, e, p, n) == IF n \in DOMAIN Enums[Sets[p]] \ {"None"} THEN Makes(f, <<E(e, p), E("AsymmetricParameters", n)>>, {E(e, p)} \cup (IF p = "XMSS" /\ SubSeq(n, 1, 6) = "XMSSMT" THEN {E(e, "XMSSMT")} ELSE {}), "*" \o p, "*" \o n)
                                                                   ELSE Refuse(f, <<E(e, p), E("AsymmetricParameters", n)>>)
AsymMake(z) == {Asym("asym", "AsymmetricCiphers", p, n) : p \in {"Kyber", "McEliece"}, n \in DOMAIN Enums["AsymmetricParameters"] \ Idle}
        \cup {Asym("sign", "AsymmetricSigners", p, n) : p \in {"Dilithium", "SphincsPlus", "XMSS"}, n \in DOMAIN Enums["AsymmetricParameters"]}
        \cup {Refuse("asym", <<v, 10>>) : v \in Out("AsymmetricCiphers")} \cup {Refuse("sign", <<v, 1>>) : v \in Out("AsymmetricSigners")}
        \cup {Refuse("asym", <<2, v>>) : v \in 65 .. 255} \cup {Refuse("sign", <<s, v>>) : s \in {5, 9, 10}, v \in 65 .. 255}
Cases(z) == CASE What = "round" -> RoundCases(z) [] What = "to" -> ToCases(z) [] What = "from" -> FromCases(z)
              [] What = "make" -> DigestMake(z) \cup MacMake(z) \cup KdfMake(z) \cup BlockMake(z) \cup StreamMake(z) \cup RandomMake(z) \cup AsymMake(z)
Init == c \in Cases(0)
Next == FALSE /\ UNCHANGED c
Emit == PrintT(<<"BEH", ToJson(c)>>)
\* the registry alone: walk over members, their names and back
WInit == c \in UNION {{<<e, n>> : n \in DOMAIN Enums[e]} : e \in DOMAIN Enums}
WNext == c' = <<c[1], NameOf(c[1], Value(c[1], c[2]))>>
Same == NameOf(c[1], Value(c[1], c[2])) = c[2]
=============================================================================
