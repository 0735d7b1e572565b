------------------------------- MODULE Misuse -------------------------------
(***************************************************************************)
(* What each symmetric primitive accepts and refuses, and that a refused   *)
(* call is as if it had not been made.  A primitive is described by the    *)
(* sizes it accepts; its abstract state is a phase plus what decides       *)
(* whether the next call is in order.  The behaviours generated here mix   *)
(* accepted and refused calls; the accepted ones alone, applied to a twin, *)
(* must give the same outputs (see Invisible).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, Steps, Gen

(* ---------------------------------------------------------------- sizes *)
(* kmin: smallest key, ks: the key sizes ({}: every size from kmin on)      *)
(* ivr/iv: rule for the nonce or salt, inr/inf: rule for the info           *)
KeyOk(c, k) == k >= c.kmin /\ (c.ks = {} \/ k \in c.ks)
IvOk(c, i, n) ==
    CASE c.ivr = "any" -> TRUE
      [] c.ivr = "zmin" -> i = 0 \/ i >= c.iv
      [] c.ivr = "min" -> i >= c.iv
      [] c.ivr = "eq" -> i = c.iv
      [] c.ivr = "upto" -> i >= 1 /\ i <= c.iv
      [] c.ivr = "ifsalt" -> i = 0 \/ i + n >= c.iv
      [] c.ivr = "both" -> i + n = 0 \/ i + n >= c.iv
InfoOk(c, n) == c.inr = "any" \/ n = 0 \/ (c.inr = "set" /\ n = c.inf) \/ (c.inr = "zmin" /\ n >= c.inf)
SeedOk(c, n) == n >= c.umin /\ (c.us = {} \/ n \in c.us)
Legal(c, z) == KeyOk(c, z.k) /\ IvOk(c, z.i, z.n) /\ InfoOk(c, z.n)

Z(k, i, n) == [k |-> k, i |-> i, n |-> n]
Base(f, nm, kmin, ks, ivr, iv, inr, inf, good) ==
    [fam |-> f, name |-> nm, kmin |-> kmin, ks |-> ks, ivr |-> ivr, iv |-> iv, inr |-> inr, inf |-> inf, good |-> good,
     listed |-> {}, tag |-> 0, tags |-> {}, auth |-> FALSE, umin |-> 0, us |-> {}, max |-> 0]

Aes == {16, 24, 32}
Ext == {32, 64, 128}
MacCfgs == {
    [Base("mac", "HMACSHA2256", 8, {}, "any", 0, "any", 0, Z(32, 0, 0)) EXCEPT !.tag = 32, !.listed = {Z(32,0,0), Z(64,0,32), Z(64,0,64)}],
    [Base("mac", "HMACSHA2512", 8, {}, "any", 0, "any", 0, Z(64, 0, 0)) EXCEPT !.tag = 64, !.listed = {Z(64,0,0), Z(128,0,64), Z(128,0,128)}],
    [Base("mac", "KMAC128", 16, {}, "zmin", 4, "any", 0, Z(16, 8, 5)) EXCEPT !.tag = 16, !.listed = {Z(16,0,0)}],
    [Base("mac", "KMAC256", 16, {}, "zmin", 4, "any", 0, Z(32, 0, 0)) EXCEPT !.tag = 32, !.listed = {Z(32,0,0)}],
    [Base("mac", "KMAC512", 16, {}, "zmin", 4, "any", 0, Z(64, 4, 0)) EXCEPT !.tag = 64, !.listed = {Z(64,0,0)}],
    [Base("mac", "KPA128", 16, {}, "any", 0, "any", 0, Z(16, 0, 0)) EXCEPT !.tag = 16, !.listed = {Z(16,0,0)}],
    [Base("mac", "KPA256", 16, {}, "any", 0, "any", 0, Z(32, 0, 0)) EXCEPT !.tag = 32, !.listed = {Z(32,0,0)}],
    [Base("mac", "KPA512", 16, {}, "any", 0, "any", 0, Z(64, 5, 0)) EXCEPT !.tag = 64, !.listed = {Z(64,0,0)}],
    [Base("mac", "CMAC", 16, Aes, "any", 0, "any", 0, Z(16, 0, 0)) EXCEPT !.tag = 16, !.listed = {Z(k,0,0) : k \in Aes}],
    [Base("mac", "CMACRHXH256", 16, Ext, "any", 0, "any", 0, Z(64, 0, 9)) EXCEPT !.tag = 16, !.listed = {Z(k,0,0) : k \in Ext}],
    [Base("mac", "CMACRHXS512", 16, Ext, "any", 0, "any", 0, Z(32, 0, 0)) EXCEPT !.tag = 16, !.listed = {Z(k,0,0) : k \in Ext}],
    [Base("mac", "GMAC", 16, Aes, "min", 12, "any", 0, Z(32, 12, 0)) EXCEPT !.tag = 16, !.listed = {Z(k,16,0) : k \in Aes}],
    [Base("mac", "GMACRHXS256", 16, Ext, "min", 12, "any", 0, Z(64, 16, 3)) EXCEPT !.tag = 16, !.listed = {Z(k,16,0) : k \in Ext}],
    [Base("mac", "Poly1305", 32, {}, "any", 0, "any", 0, Z(32, 0, 0)) EXCEPT !.tag = 16, !.listed = {Z(32,0,0)}] }
Kdf(nm, kmin, ivr, iv, good, listed) == [Base("kdf", nm, kmin, {}, ivr, iv, "any", 0, good) EXCEPT !.listed = listed]
S256 == {Z(32,0,0), Z(64,0,32), Z(64,64,32)}
S512 == {Z(64,0,0), Z(128,0,64), Z(128,128,64)}
KdfCfgs == {
    [Kdf("HKDF256 enum", 16, "ifsalt", 4, Z(32, 16, 5), S256) EXCEPT !.tag = 32, !.max = 255],
    [Kdf("HKDF512 enum", 16, "ifsalt", 4, Z(64, 0, 7), S512) EXCEPT !.tag = 64, !.max = 255],
    [Kdf("KDF2256 enum", 16, "ifsalt", 4, Z(32, 16, 5), S256) EXCEPT !.tag = 32, !.max = 255],
    [Kdf("KDF2512 enum", 16, "ifsalt", 4, Z(64, 0, 3), S512) EXCEPT !.tag = 64, !.max = 255],
    Kdf("PBKDF2256 enum:2", 4, "both", 4, Z(32, 16, 5), S256), Kdf("PBKDF2512 enum:1", 4, "both", 4, Z(64, 0, 0), S512),
    Kdf("SHAKE128 enum", 4, "zmin", 4, Z(16, 0, 0), {Z(16,0,0)}), Kdf("SHAKE256 enum", 4, "zmin", 4, Z(32, 8, 3), {Z(32,0,0)}),
    Kdf("SHAKE512 enum", 4, "zmin", 4, Z(64, 0, 5), {Z(64,0,0)}),
    Kdf("SCBKDF128 cost:1:1", 16, "any", 0, Z(16, 0, 0), {Z(16,0,0), Z(32,0,0), Z(64,0,0)}),
    Kdf("SCBKDF512 cost:1:1", 16, "any", 0, Z(64, 9, 2), {Z(16,0,0), Z(32,0,0), Z(64,0,0)}) }
ModeCfgs ==
    {[Base("mode", m \o " AES enum 16", 16, Aes, IF m = "ECB" THEN "any" ELSE IF m = "CFB" THEN "upto" ELSE "eq", 16, "any", 0, Z(32, 16, 0))
        EXCEPT !.listed = {Z(k,16,0) : k \in Aes}] : m \in {"ECB", "CBC", "CFB", "OFB", "CTR", "ICM"}}
    \cup {[Base("mode", m \o " RHXS256 engine 16", 32, Ext, IF m = "CFB" THEN "upto" ELSE "eq", 16, "any", 0, Z(64, 16, 7))
        EXCEPT !.listed = {Z(k,16,0) : k \in Ext}] : m \in {"CBC", "CFB", "OFB", "CTR", "ICM"}}
Strm(nm, auth, ks, iv, inr, inf, good, listed, tag) ==
    [Base("strm", nm, 1, ks, "eq", iv, inr, inf, good) EXCEPT !.auth = auth, !.listed = listed, !.tag = tag]
StrmCfgs == {
    [Strm("RCS auth", TRUE, {32, 64}, 32, "zmin", 4, Z(32, 32, 16), {Z(32,32,16), Z(64,32,16)}, 32) EXCEPT !.tags = {Z(64, 64, 0)}],
    Strm("RCS plain", FALSE, {32, 64}, 32, "zmin", 4, Z(64, 32, 0), {Z(32,32,16), Z(64,32,16)}, 0),
    [Strm("RWS auth", TRUE, {16, 32, 64}, 64, "zmin", 4, Z(32, 64, 5), {Z(16,64,16), Z(32,64,16), Z(64,64,16)}, 32) EXCEPT !.tags = {Z(16, 16, 0), Z(64, 64, 0)}],
    Strm("ChaChaP20 auth", TRUE, {32}, 8, "set", 16, Z(32, 8, 0), {Z(32,8,16)}, 32),
    Strm("ChaChaP20 plain", FALSE, {32}, 8, "set", 16, Z(32, 8, 16), {Z(32,8,16)}, 0),
    Strm("CSX512 auth", TRUE, {64}, 16, "any", 0, Z(64, 16, 48), {Z(64,16,48)}, 64),
    Strm("CSX512 plain", FALSE, {64}, 16, "any", 0, Z(64, 16, 0), {Z(64,16,48)}, 0),
    Strm("TSX256 auth", TRUE, {32}, 16, "set", 16, Z(32, 16, 0), {Z(32,16,16)}, 32),
    Strm("TSX512 auth", TRUE, {64}, 16, "set", 16, Z(64, 16, 16), {Z(64,16,16)}, 64),
    Strm("TSX512 plain", FALSE, {64}, 16, "set", 16, Z(64, 16, 0), {Z(64,16,16)}, 0),
    Strm("TSX1024 auth", TRUE, {128}, 16, "set", 16, Z(128, 16, 0), {Z(128,16,16)}, 128) }
Gcm(nm, ks, good) == [Base("gcm", nm, 1, ks, "min", 8, "any", 0, good) EXCEPT !.auth = TRUE, !.tag = 16, !.listed = {Z(k,16,0) : k \in ks}]
Hba(nm, ks, inr, good, tag) == [Base("hba", nm, 1, ks, "eq", 16, inr, 4, good) EXCEPT !.auth = TRUE, !.tag = tag, !.listed = {Z(k,16,0) : k \in ks}]
AeadCfgs == {
    Gcm("GCM AES enum", Aes, Z(16, 12, 0)), Gcm("GCM RHXS256 engine", Ext, Z(64, 16, 5)),
    Hba("HBA AES enum KMAC256", Aes, "zmin", Z(32, 16, 0), 32), Hba("HBA RHXS256 engine KMAC512", Ext, "zmin", Z(64, 16, 9), 64),
    Hba("HBA AES enum HMACSHA2256", Aes, "any", Z(32, 16, 3), 32) }
Drbg(nm, kmin, ks, ivr, iv, good, umin, listed) ==
    [Base("drbg", nm, kmin, ks, ivr, iv, "any", 0, good) EXCEPT !.umin = umin, !.listed = listed]
DrbgCfgs == {
    [Drbg("BCG none", 32, Ext, "eq", 32, Z(32, 32, 7), 32, {Z(k,32,16) : k \in Ext}) EXCEPT !.us = Ext],
    Drbg("CSG128 none", 16, {}, "any", 0, Z(16, 0, 0), 16, {Z(16,0,0)}),
    Drbg("CSG256 none", 16, {}, "any", 0, Z(32, 8, 0), 16, {Z(32,0,0)}),
    Drbg("CSG512 none", 16, {}, "any", 0, Z(64, 0, 5), 16, {Z(64,0,0)}),
    Drbg("HCG256 none", 16, {}, "any", 0, Z(32, 8, 8), 32, {Z(16,8,8), Z(32,8,8), Z(64,8,8)}),
    Drbg("HCG512 none", 16, {}, "any", 0, Z(64, 8, 0), 64, {Z(32,8,40), Z(64,8,40), Z(128,8,40)}) }
BlkCfgs == {
    [Base("blk", "AES", 1, Aes, "any", 0, "any", 0, Z(16, 0, 0)) EXCEPT !.listed = {Z(k,0,0) : k \in Aes}],
    [Base("blk", "Serpent", 1, Aes, "any", 0, "any", 0, Z(32, 0, 0)) EXCEPT !.listed = {Z(k,0,0) : k \in Aes}],
    [Base("blk", "RHXH256", 1, Ext, "any", 0, "any", 0, Z(32, 0, 5)) EXCEPT !.listed = {Z(k,0,16) : k \in Ext}],
    [Base("blk", "RHXS512", 1, Ext, "any", 0, "any", 0, Z(128, 0, 0)) EXCEPT !.listed = {Z(k,0,16) : k \in Ext}],
    [Base("blk", "SHXS256", 1, Ext, "any", 0, "any", 0, Z(64, 0, 3)) EXCEPT !.listed = {Z(k,0,16) : k \in Ext}],
    [Base("blk", "SHXH512", 1, Ext, "any", 0, "any", 0, Z(64, 0, 0)) EXCEPT !.listed = {Z(k,0,16) : k \in Ext}] }
Dg(nm, tag) == [Base("dg", nm, 0, {}, "any", 0, "any", 0, Z(0, 0, 0)) EXCEPT !.tag = tag]
DgCfgs == {Dg("Blake256 seq", 32), Dg("Blake512 seq", 64), Dg("SHA2256 seq", 32), Dg("SHA2512 seq", 64), Dg("SHA3256 seq", 32),
           Dg("SHA3512 seq", 64), Dg("Skein256 seq", 32), Dg("Skein512 seq", 64), Dg("Skein1024 seq", 128),
           Dg("Blake256 tree", 32), Dg("SHA2512 4", 64), Dg("SHA3256 tree", 32), Dg("Skein512 2", 64)}
AllCfgs == MacCfgs \cup KdfCfgs \cup ModeCfgs \cup StrmCfgs \cup AeadCfgs \cup DrbgCfgs \cup BlkCfgs \cup DgCfgs
SizeCfgs == AllCfgs \ DgCfgs
ToyCfg == {c \in AllCfgs : c.name \in {"KMAC128", "GMAC", "HKDF256 enum", "CTR AES enum 16", "GCM AES enum", "CSX512 auth", "BCG none"}}

(* ---------------------------------------------------------- the machine *)
(* ph: new | ready | done (only a new initialization is in order);          *)
(* ad: associated data present; used: output blocks taken from a KDF;       *)
(* log: what the accepted calls since the last initialization were          *)
Fresh(c) == [ph |-> IF c.fam = "dg" THEN "ready" ELSE "new", ad |-> FALSE, used |-> 0, z |-> Z(0, 0, 0), s |-> -1, log |-> <<>>]
Blocks(c, n) == (n + c.tag - 1) \div c.tag

InOrder(c, st, e) ==
    CASE e.op = "init" -> Legal(c, e.z)
      [] e.op = "renew" -> st.ph # "new" /\ e.x = "fresh"
      [] e.op \in {"upd", "comp", "gen", "seed", "tr", "blk", "fin"} ->
            st.ph = "ready" /\ e.x = "good" /\ (e.op = "seed" => SeedOk(c, e.n)) /\ (c.max > 0 /\ e.op = "gen" => st.used + Blocks(c, e.n) <= c.max)
      [] e.op = "ad" -> st.ph = "ready" /\ e.x = "good" /\ c.auth /\ ~(c.fam = "gcm" /\ st.ad)
      [] e.op = "deg" -> FALSE
      [] OTHER -> FALSE

After(c, st, e) ==
    LET l == Append(st.log, e) IN
    CASE e.op = "init" -> [Fresh(c) EXCEPT !.ph = "ready", !.z = e.z, !.s = e.s]
      [] e.op = "renew" -> [Fresh(c) EXCEPT !.ph = "ready", !.z = st.z, !.s = st.s, !.log = <<e>>]
      [] e.op = "ad" -> [st EXCEPT !.ad = TRUE, !.log = l]
      [] e.op = "gen" /\ c.max > 0 -> [st EXCEPT !.used = @ + Blocks(c, e.n), !.log = l]
      [] e.op = "tr" /\ c.fam = "gcm" -> [st EXCEPT !.ph = "done", !.log = l]
      [] e.op \in {"fin", "comp"} /\ c.fam = "mac" -> [st EXCEPT !.ph = "done", !.log = l]
      [] OTHER -> [st EXCEPT !.log = l]
Call(c, st, e) == IF InOrder(c, st, e) THEN After(c, st, e) ELSE st

(* ------------------------------------------------------------ behaviours *)
VARIABLES c, st, hist, phase
vars == <<c, st, hist, phase>>
RECURSIVE Replay(_, _, _)
Replay(cc, s, h) == IF h = <<>> THEN s ELSE Replay(cc, Call(cc, s, Head(h).e), Tail(h))

(* dropping the refused calls leaves the same machine, and in it nothing is refused *)
Invisible ==
    LET h == SelectSeq(hist, LAMBDA r : r.ok)
    IN /\ Replay(c, Fresh(c), h) = st
       /\ \A k \in 1 .. Len(h) : InOrder(c, Replay(c, Fresh(c), SubSeq(h, 1, k - 1)), h[k].e)
(* and so does inserting them anywhere *)
Insertable ==
    \A k \in 1 .. Len(hist) : ~hist[k].ok =>
        Replay(c, Fresh(c), SubSeq(hist, 1, k - 1)) = Replay(c, Fresh(c), SubSeq(hist, 1, k))
NeedsInit == c.fam # "dg" /\ st.ph # "new" => \E k \in 1 .. Len(hist) : hist[k].ok /\ hist[k].e.op = "init"
WithinMax == c.max > 0 => st.used <= c.max

E(op, x, n, z) == [op |-> op, x |-> x, n |-> n, z |-> z, s |-> Len(hist)]
Log(e) == /\ st' = Call(c, st, e)
          /\ hist' = Append(hist, [e |-> e, ok |-> InOrder(c, st, e), was |-> st.ph])
          /\ UNCHANGED <<c, phase>>

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
KeySizes == IF Gen = "toy" THEN {0, 15, 16, 64} ELSE 0 .. 130 \cup {160, 192, 256, 512}
IvSizes == IF Gen = "toy" THEN {0, 3, 12, 16, 32} ELSE 0 .. 70 \cup {96, 128, 200}
InfoSizes == IF Gen = "toy" THEN {0, 1, 48} ELSE 0 .. 70 \cup {128, 137, 200, 300}
(* one size is varied around a set that is accepted *)
Mutate(z, ax) ==
    CASE ax = "k" -> {[z EXCEPT !.k = v] : v \in Rand(IF c.fam = "gcm" \/ (z.i = 0 /\ z.n = 0) THEN KeySizes \ {0} ELSE KeySizes)}
      [] ax = "i" -> {[z EXCEPT !.i = v] : v \in Rand(IvSizes)}
      [] ax = "n" -> {[z EXCEPT !.n = v] : v \in Rand(InfoSizes)}
      [] OTHER -> {z}
Axes(cc) == {"k"} \cup (IF cc.fam = "blk" THEN {} ELSE IF cc.ivr = "any" THEN {} ELSE {"i"}) \cup (IF cc.inr = "any" /\ cc.ivr \notin {"ifsalt", "both"} THEN {} ELSE {"n"})
GoodZ(cc) == {cc.good} \cup cc.listed

Lens == IF Gen = "toy" THEN {5} ELSE {1, 5, 15, 16, 17, 32, 64, 100, 136, 200}
SeedLens(cc) == IF cc.us # {} THEN cc.us ELSE {cc.umin + n : n \in Lens}
Bad(op) == CASE op = "upd" -> IF c.fam = "dg" THEN {} ELSE {"over", "past"}
             [] op = "fin" -> {"short", "past"}
             [] op = "comp" -> {"short"}
             [] op = "gen" -> {"over", "past"}
             [] op = "seed" -> {"small"}
             [] op = "ad" -> {"over", "past"}
             [] op = "tr" -> {"short"}
             [] OTHER -> {}
Uses(cc) == CASE cc.fam = "mac" -> {"upd", "fin", "comp"}
              [] cc.fam = "dg" -> {"upd", "fin", "comp"}
              [] cc.fam = "kdf" -> {"gen"}
              [] cc.fam = "drbg" -> {"gen", "seed"}
              [] cc.fam \in {"mode", "blk"} -> {"tr"}
              [] OTHER -> {"tr", "ad"}
(* before initialization a refusal is promised by these *)
Early(cc) == CASE cc.fam \in {"mac"} -> {"upd", "fin", "comp"}
               [] cc.fam = "kdf" -> {"gen"}
               [] cc.fam = "drbg" -> {"gen", "seed"}
               [] cc.fam = "hba" -> {"tr", "ad"}
               [] cc.fam \in {"strm", "gcm"} -> {"ad"}
               [] OTHER -> {}
Degrees == {0, 3, 1002}
HasDegree(cc) == cc.fam \in {"strm", "gcm", "hba", "dg"} \/ (cc.fam = "mode" /\ \E m \in {"CBC", "CFB", "CTR", "ICM", "ECB"} : SubSeq(cc.name, 1, 3) = m)

Init == /\ c \in Cfgs /\ st = Fresh(c) /\ hist = <<>> /\ phase = "run"
Run == phase = "run" /\ Len(hist) < Steps
DoInit == Run /\ c.fam # "dg" /\ \E z \in Rand(GoodZ(c)) : Log(E("init", "good", 0, z))
DoBadInit == Run /\ c.fam # "dg" /\ \E ax \in Rand(Axes(c)) : \E z0 \in Rand(GoodZ(c)) : \E z \in Mutate(z0, ax) :
                ~Legal(c, z) /\ Log(E("init", "bad", 0, z))
DoUse == Run /\ st.ph = "ready" /\ \E op \in Rand(Uses(c)) : \E n \in Rand(IF op = "seed" THEN SeedLens(c) ELSE Lens) :
            LET e == E(op, "good", n, Z(0, 0, 0)) IN InOrder(c, st, e) /\ Log(e)
DoBadUse == Run /\ st.ph = "ready" /\ \E op \in Rand(Uses(c)) : Bad(op) # {} /\ \E x \in Rand(Bad(op)) : \E n \in Rand(Lens) :
            /\ (op = "tr" => c.auth)
            /\ (op = "ad" => c.auth)
            /\ Log(E(op, x, n, Z(0, 0, 0)))
DoEarly == Run /\ st.ph = "new" /\ Early(c) # {} /\ \E op \in Rand(Early(c)) : \E n \in Rand(IF op = "seed" THEN SeedLens(c) ELSE Lens) : Log(E(op, "good", n, Z(0, 0, 0)))
DoLate == Run /\ c.fam = "gcm" /\ st.ph = "done" /\ \E n \in Rand(Lens) : Log(E("ad", "good", n, Z(0, 0, 0)))
DoDegree == Run /\ HasDegree(c) /\ \E d \in Rand(Degrees) : Log(E("deg", "bad", d, Z(0, 0, 0)))
DoUnauth == Run /\ c.fam = "strm" /\ st.ph = "ready" /\ \E n \in Rand(Lens) :
            \/ (~c.auth /\ Log(E("ad", "good", n, Z(0, 0, 0))))
            \/ (c.auth /\ c.name # "ChaChaP20 auth" /\ Log(E("ad", "empty", 0, Z(0, 0, 0))))
            \/ (~c.auth /\ SubSeq(c.name, 1, 3) # "TSX" /\ Log(E("tag", "bad", 0, Z(0, 0, 0))))
DoTwice == Run /\ c.fam = "gcm" /\ st.ph = "ready" /\ st.ad /\ \E n \in Rand(Lens) : Log(E("ad", "good", n, Z(0, 0, 0)))
DoRenew == Run /\ c.fam = "gcm" /\ \E x \in Rand({"fresh", "same", "zero"}) : (x = "same" => st.ph # "new") /\ Log(E("renew", x, 12, Z(0, 0, 0)))
DoTooMuch == Run /\ c.max > 0 /\ st.ph = "ready" /\ Log(E("gen", "good", (c.max - st.used) * c.tag + 1, Z(0, 0, 0)))
DoAllOfIt == Run /\ c.max > 0 /\ st.ph = "ready" /\ st.used < c.max /\ Gen # "sizes" /\ Log(E("gen", "good", (c.max - st.used) * c.tag, Z(0, 0, 0)))
Stop == /\ phase = "run" /\ Len(hist) >= Steps /\ phase' = "done" /\ UNCHANGED <<c, st, hist>>

Act == DoInit \/ DoBadInit \/ DoUse \/ DoBadUse \/ DoEarly \/ DoLate \/ DoDegree \/ DoUnauth \/ DoTwice \/ DoRenew \/ DoTooMuch \/ DoAllOfIt
Next == Act \/ Stop
Spec == Init /\ [][Next]_vars

(* every size in turn: initialized well, then each size of one axis, with a use behind each *)
SweepInit == /\ c \in Cfgs /\ st = Fresh(c) /\ hist = <<>> /\ phase = "run"
SweepNext ==
    /\ phase = "run"
    /\ \E ax \in Axes(c) : \E z \in Mutate(c.good, ax) \cup (IF ax = "k" THEN c.listed ELSE {}) :
         /\ phase' = "done"
         /\ hist' = <<[e |-> [op |-> "init", x |-> ax, n |-> 0, z |-> z, s |-> 1], ok |-> Legal(c, z), was |-> "ready"]>>
         /\ UNCHANGED <<c, st>>

Emit == phase = "done" => PrintT(<<"BEH", ToJson([c |-> [fam |-> c.fam, name |-> c.name, tag |-> c.tag, tags |-> c.tags, auth |-> c.auth, umin |-> c.umin, good |-> c.good,
                                                         listed |-> c.listed, kmin |-> c.kmin],
                                                 h |-> [k \in 1 .. Len(hist) |-> [op |-> hist[k].e.op, x |-> hist[k].e.x, n |-> hist[k].e.n, z |-> hist[k].e.z, s |-> hist[k].e.s,
                                                        ok |-> hist[k].ok, was |-> hist[k].was]]])>>)
=============================================================================
