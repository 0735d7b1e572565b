------------------------------ MODULE Processing ------------------------------
(* The stream helpers: CipherStream, DigestStream and MacStream over arrays     *)
(* and over byte streams.                                                       *)
(* Definition: a message is padded as a whole (block modes) and handed to the   *)
(* primitive as a whole; digests and tags are those of the message's bytes.     *)
(* Machine (toy part): the helper's loop, which hands the primitive parallel    *)
(* portions, then blocks, then the final block, keeping the last block back     *)
(* when decrypting.  Invariants: the loop computes the definition, nothing is   *)
(* left over, and what was encrypted comes back with its length, whatever the   *)
(* message ends in and however many messages one initialization carries.       *)
(* Conformance part: histories of initializations, messages from arrays and     *)
(* streams at any position into arrays and streams, and refused calls.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cfgs, Steps, Gen
VARIABLES c,        \* the helper's configuration
          st,       \* "raw", "enc", "dec", "ready" (keyed), "spent" (a mac after its tag)
          key,      \* the key of the current initialization
          par,      \* parallel profile
          pieces,   \* what the primitive was given since its initialization
          outs,     \* cipher-texts made so far
          got,      \* how many of the session's cipher-texts were decrypted in order; -1: out of step
          toy, hist, done
vars == <<c, st, key, par, pieces, outs, got, toy, hist, done>>

-------------------------------------------------------------------------------
(* toy primitives on bytes, blocks of two *)
P == INSTANCE Padding WITH Max <- 1, Alphabet <- {}, Tails <- {}, Blocks <- {}, scheme <- "", off <- 0, msg <- <<>>, at <- 0, phase <- ""
E(b) == <<(b[2] + 1) % 256, (b[1] + b[2]) % 256>>
D(y) == LET b2 == (y[1] + 255) % 256 IN <<(y[2] + 256 - b2) % 256, b2>>
Add2(a, b) == <<(a[1] + b[1]) % 256, (a[2] + b[2]) % 256>>
Sub2(a, b) == <<(a[1] + 256 - b[1]) % 256, (a[2] + 256 - b[2]) % 256>>
Up(v) == <<(v[1] + 1) % 256, v[2]>>
\* one block (the last of a counter mode may be short): <<output, next chain>>
Blk(m, d, ch, x) ==
    CASE m = "ECB" -> <<IF d = "enc" THEN E(x) ELSE D(x), ch>>
      [] m = "CBC" -> IF d = "enc" THEN LET y == E(Add2(x, ch)) IN <<y, y>> ELSE <<Sub2(D(x), ch), x>>
      [] m = "CTR" -> LET s == E(ch) IN <<[i \in 1 .. Len(x) |-> IF d = "enc" THEN (x[i] + s[i]) % 256 ELSE (x[i] + 256 - s[i]) % 256], Up(ch)>>
RECURSIVE Whole(_, _, _, _)
Whole(m, d, ch, x) == IF x = <<>> THEN <<<<>>, ch>> ELSE
    LET n == IF Len(x) < 2 THEN Len(x) ELSE 2
        r == Blk(m, d, ch, SubSeq(x, 1, n))
        q == Whole(m, d, r[2], SubSeq(x, n + 1, Len(x))) IN <<r[1] \o q[1], q[2]>>
Counter(m) == m = "CTR"
Padded(m, s, x) == IF Counter(m) THEN x ELSE P!Add(s, x \o [i \in 1 .. 2 - (Len(x) % 2) |-> 0], Len(x))
\* definition, for one message after the others: <<result, chain>>
Def(m, s, d, ch, x) ==
    IF d = "enc" THEN Whole(m, d, ch, Padded(m, s, x))
    ELSE LET r == Whole(m, d, ch, x) IN
         IF Counter(m) THEN r ELSE <<SubSeq(r[1], 1, P!Start(s, r[1], Len(x) - 2)), r[2]>>

\* machine: t.x the input, t.o the output so far, t.p how far it is
Cut(t) == IF t.d = "enc" \/ Counter(t.m) THEN (Len(t.x) \div 2) * 2 ELSE Len(t.x) - 2
PCut(t) == IF Len(t.x) % t.pb # 0 \/ Counter(t.m) \/ t.d = "enc" THEN (Len(t.x) \div t.pb) * t.pb ELSE Len(t.x) - t.pb
Feed(t, n) == LET r == Whole(t.m, t.d, t.ch, SubSeq(t.x, t.p + 1, t.p + n)) IN [t EXCEPT !.o = @ \o r[1], !.ch = r[2], !.p = @ + n]
ToyMsgs == UNION {[1 .. n -> {0, 1, 2, 128}] : n \in 1 .. 4}
NoToy == [m |-> "", s |-> "", d |-> "", pb |-> 0, ch |-> <<0, 0>>, c0 |-> <<0, 0>>, x |-> <<>>, o |-> <<>>, p |-> 0, ph |-> "idle", ms |-> <<>>, cs |-> <<>>, i |-> 0]
ToyInit == toy \in {[NoToy EXCEPT !.m = m, !.s = s, !.d = "enc", !.pb = pb, !.ch = <<3, 200>>] :
                      m \in {"ECB", "CBC", "CTR"}, s \in P!Schemes, pb \in {0, 4}}
Begin(x) == toy' = [toy EXCEPT !.x = x, !.o = <<>>, !.p = 0, !.ph = "run", !.c0 = toy.ch, !.i = @ + 1,
                               !.ms = IF toy.d = "enc" THEN Append(@, x) ELSE @]
ToyRun ==
    /\ toy.ph = "run"
    /\ IF toy.pb > 0 /\ Len(toy.x) > toy.pb /\ toy.p < PCut(toy) THEN toy' = Feed(toy, toy.pb)
       ELSE IF toy.p < Cut(toy) THEN toy' = Feed(toy, 2)
       ELSE IF Counter(toy.m) THEN toy' = [Feed(toy, Len(toy.x) - toy.p) EXCEPT !.ph = "ready"]
       ELSE IF toy.d = "enc" THEN
            LET r == Whole(toy.m, "enc", toy.ch, Padded(toy.m, toy.s, SubSeq(toy.x, toy.p + 1, Len(toy.x)))) IN
            toy' = [toy EXCEPT !.o = @ \o r[1], !.ch = r[2], !.p = Len(toy.x), !.ph = "ready"]
       ELSE LET r == Whole(toy.m, "dec", toy.ch, SubSeq(toy.x, toy.p + 1, Len(toy.x))) IN
            toy' = [toy EXCEPT !.o = @ \o SubSeq(r[1], 1, P!Start(toy.s, r[1], 0)), !.ch = r[2], !.p = Len(toy.x), !.ph = "ready"]
ToyNext ==
    /\ UNCHANGED <<c, st, key, par, pieces, outs, got, hist, done>>
    /\ \/ ToyRun
       \/ toy.ph = "idle" /\ \E x \in ToyMsgs : Begin(x)
       \/ toy.ph = "ready" /\ toy.d = "enc" /\ toy' = [toy EXCEPT !.cs = Append(@, toy.o), !.ph = "sent"]
       \/ toy.ph = "sent" /\ toy.d = "enc" /\ Len(toy.ms) < 2 /\ \E x \in {<<1>>, <<2, 2>>, <<128, 0, 1, 1, 7>>, <<9, 8, 7, 6, 5, 4, 3, 2>>} : Begin(x)
       \/ toy.ph = "sent" /\ toy.d = "enc" /\ toy' = [toy EXCEPT !.d = "dec", !.ch = <<3, 200>>, !.i = 0, !.ph = "next"]
       \/ toy.ph = "next" /\ toy.i < Len(toy.cs) /\ Begin(toy.cs[toy.i + 1])
       \/ toy.ph = "ready" /\ toy.d = "dec" /\ toy' = [toy EXCEPT !.ph = "next"]
LoopComputes == toy.ph = "ready" => <<toy.o, toy.ch>> = Def(toy.m, toy.s, toy.d, toy.c0, toy.x)
ComesBack == toy.ph = "ready" /\ toy.d = "dec" => toy.o = toy.ms[toy.i]
NothingLeft == toy.ph = "ready" => toy.p = Len(toy.x)
WholeBlocks == toy.ph = "ready" /\ toy.d = "enc" /\ ~Counter(toy.m) => Len(toy.o) % 2 = 0 /\ Len(toy.o) > Len(toy.x)
NeverPast == toy.p <= Len(toy.x)

-------------------------------------------------------------------------------
(* conformance histories *)
NoKey == [k |-> 0, iv |-> 0, info |-> 0, s |-> 0]
Init == /\ c \in Cfgs /\ st = (IF c.k = "digest" THEN "ready" ELSE "raw") /\ key = NoKey /\ par = [on |-> FALSE, size |-> 0, degree |-> 0]
        /\ pieces = <<>> /\ outs = <<>> /\ got = 0 /\ hist = <<>> /\ done = FALSE
        /\ IF Gen = "toy" THEN ToyInit ELSE toy = NoToy
Id == Len(hist) + 1
Log(e) == hist' = Append(hist, e @@ [id |-> Id])
Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Same == UNCHANGED <<c, toy>>

Start(d, k, iv, i) ==
    /\ st' = d /\ key' = [k |-> k, iv |-> iv, info |-> i, s |-> Id] /\ pieces' = <<>> /\ got' = 0
    /\ Log([op |-> "init", d |-> d, key |-> key']) /\ UNCHANGED <<par, outs>> /\ Same
Flip(d) ==      \* the same key again
    /\ st # "raw"
    /\ st' = d /\ pieces' = <<>> /\ got' = 0 /\ Log([op |-> "init", d |-> d, key |-> key]) /\ UNCHANGED <<key, par, outs>> /\ Same
BadStart(d, k, iv) ==
    /\ Log([op |-> "badinit", d |-> d, key |-> [k |-> k, iv |-> iv, info |-> 0, s |-> Id]]) /\ UNCHANGED <<st, key, par, pieces, outs, got>> /\ Same
Configure(p) == /\ par' = p /\ Log([op |-> "par", par |-> p]) /\ UNCHANGED <<st, key, pieces, outs, got>> /\ Same

\* where the message comes from and where the result goes: arrays with offsets, or streams with something before
Sources == {[k |-> "arr", o |-> o] : o \in {0, 1, 16, 37}} \cup {[k |-> k, o |-> o] : k \in {"mem", "sec", "file"}, o \in {0, 1, 19}}
Sinks(s) == IF s.k = "arr" THEN {[k |-> "arr", o |-> o, x |-> x] : o \in {0, 3, 32}, x \in {0, 16, 50}}
            ELSE {[k |-> k, o |-> o, x |-> x] : k \in {"mem", "sec", "file"}, o \in {0, 5}, x \in {0}}
Message(n, t) == [s |-> Id, n |-> n, t |-> t]
Encrypt(n, t, s, o) ==
    /\ st = "enc" /\ pieces' = Append(pieces, [w |-> "new", m |-> Message(n, t)])
    /\ outs' = Append(outs, [k |-> key.s, i |-> Len(pieces) + 1, m |-> Message(n, t), id |-> Id])
    /\ Log([op |-> "write", d |-> "enc", m |-> Message(n, t), src |-> s, dst |-> o, key |-> key, term |-> pieces', back |-> 0])
    /\ UNCHANGED <<st, key, par, got>> /\ Same
\* the session's next cipher-text gives its message; any other whole number of blocks gives what the definition says
InStep(i) == got >= 0 /\ outs[i].k = key.s /\ outs[i].i = got + 1
Decrypt(i, s, o) ==
    /\ st = "dec" /\ i <= Len(outs)
    /\ pieces' = Append(pieces, [w |-> "out", m |-> [s |-> outs[i].id, n |-> 0, t |-> 0]])
    /\ got' = (IF InStep(i) THEN got + 1 ELSE 0 - 1)
    /\ Log([op |-> "write", d |-> "dec", m |-> [s |-> outs[i].id, n |-> 0, t |-> 0], src |-> s, dst |-> o, key |-> key, term |-> pieces',
            back |-> IF InStep(i) THEN outs[i].id ELSE 0])
    /\ UNCHANGED <<st, key, par, outs>> /\ Same
Junk(n, s, o) ==
    /\ st = "dec" /\ pieces' = Append(pieces, [w |-> "junk", m |-> Message(n, 0)]) /\ got' = 0 - 1
    /\ Log([op |-> "write", d |-> "junk", m |-> Message(n, 0), src |-> s, dst |-> o, key |-> key, term |-> pieces', back |-> 0])
    /\ UNCHANGED <<st, key, par, outs>> /\ Same
\* refused: before initialization, nothing to process, a ragged cipher-text, no room
Refuse(why, s) == /\ Log([op |-> "refuse", why |-> why, src |-> s, d |-> st]) /\ UNCHANGED <<st, key, par, pieces, outs, got>> /\ Same
\* digests and tags
Hash(n, s, via) ==
    /\ st = "ready" /\ st' = (IF c.k = "mac" /\ ~c.again THEN "spent" ELSE "ready")
    /\ Log([op |-> "hash", m |-> Message(n, 0), src |-> s, x |-> via, key |-> key]) /\ UNCHANGED <<key, par, pieces, outs, got>> /\ Same

PLen == IF par.on THEN par.size ELSE 256
B == c.b
Lens == {l \in {1, 2, B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B, 8 * B, 100, PLen - B, PLen - 1, PLen, PLen + 1, PLen + B - 1, PLen + B, 2 * PLen, 2 * PLen + B, 2 * PLen + 77, 3 * PLen} : l > 0}
CipherStep ==
    \/ \E d \in Rand({"enc", "dec"}), k \in Rand(c.keys), iv \in Rand(c.ivs), i \in Rand(c.infos) : Start(d, k, iv, i)
    \/ \E d \in Rand({"enc", "dec"}), x \in Rand(c.bad) : BadStart(d, x[1], x[2])
    \/ \E p \in Rand(c.pars) : Configure(p)
    \/ \E z \in 1 .. 3 : \E n \in Rand(Lens), t \in Rand(0 .. 6), s \in Rand(Sources) : \E o \in Rand(Sinks(s)) : Encrypt(n, t, s, o)
    \/ \E z \in 1 .. 2 : \E n \in Rand({B, 2 * B, 9 * B, 2 * PLen}), s \in Rand(Sources) : \E o \in Rand(Sinks(s)) : Junk(n, s, o)
    \/ \E i \in 1 .. Len(outs) : \E s \in Rand(Sources) : \E o \in Rand(Sinks(s)) : Decrypt(i, s, o)
    \/ Flip("dec") \/ Flip("enc")
    \/ \E s \in Rand(Sources) :
         \/ st = "raw" /\ Refuse("raw", s)
         \/ st # "raw" /\ Refuse("empty", s)
         \/ st = "dec" /\ ~c.ctr /\ B > 1 /\ Refuse("ragged", s)
         \/ st \in {"enc", "dec"} /\ s.k = "arr" /\ Refuse("room", s)
OtherStep ==
    \/ c.k = "mac" /\ \E k \in Rand(c.keys), iv \in Rand(c.ivs), i \in Rand(c.infos) : Start("ready", k, iv, i)
    \/ c.k = "mac" /\ Flip("ready")
    \/ c.k = "mac" /\ \E x \in Rand(c.bad) : BadStart("ready", x[1], x[2])
    \/ c.k = "mac" /\ st = "raw" /\ \E s \in Rand(Sources) : Refuse("raw", s)
    \/ \E n \in Rand(Lens), s \in Rand(Sources), v \in Rand({0, 7}) : Hash(n, s, v)
Step == /\ Len(hist) < Steps /\ done' = FALSE /\ (CASE c.k = "cipher" -> CipherStep [] OTHER -> OtherStep)
Stop == done' = TRUE /\ UNCHANGED <<c, st, key, par, pieces, outs, got, toy, hist>>
Next == Step \/ (Len(hist) = Steps /\ ~done /\ Stop)
ToySpec == Init /\ [][ToyNext]_vars

\* every length up to three blocks with every ending, through every kind of source, and back
One(S) == CHOOSE x \in S : TRUE
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E p \in c.pars : Configure(p)
          \/ Len(hist) = 1 /\ Start("enc", One(c.keys), One(c.ivs), One(c.infos))
          \/ Len(hist) = 2 /\ \E n \in (1 .. 2 * B + 1) \cup {PLen - B, PLen, PLen + B, 2 * PLen, 2 * PLen + B, 2 * PLen + 77}, t \in 0 .. 6, w \in {"arr", "mem"} :
                (n % B = 0 \/ t \in {n % 7, 1}) /\ Encrypt(n, t, [k |-> w, o |-> n % 3], [k |-> w, o |-> n % 4, x |-> 0])
          \/ Len(hist) = 3 /\ Flip("dec")
          \/ Len(hist) = 4 /\ LET w == IF hist[3].src.k = "arr" THEN "arr" ELSE "mem" IN Decrypt(1, [k |-> w, o |-> 1], [k |-> w, o |-> 2, x |-> 16])
    \/ Len(hist) = 5 /\ ~done /\ Stop
HashSweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ IF c.k = "mac" THEN Start("ready", One(c.keys), One(c.ivs), One(c.infos)) ELSE Hash(1, [k |-> "arr", o |-> 0], 0)
          \/ Len(hist) = 1 /\ \E n \in {1, B - 1, B, B + 1, 2 * B, 3 * B + 5}, s \in {[k |-> k, o |-> o] : k \in {"arr", "mem", "sec", "file"}, o \in {0, 1, B + 3}} : n > 0 /\ Hash(n, s, 0)
    \/ Len(hist) = 2 /\ ~done /\ Stop
-------------------------------------------------------------------------------
InOrder == got >= 0 /\ st = "dec" => Len(pieces) = got
C(m, n, how, pad, reg) ==
  [k |-> "cipher", m |-> m, n |-> n, how |-> how, pad |-> pad, b |-> reg, ctr |-> m \in {"CTR", "ICM"},
   keys |-> IF n = "AES" THEN {16, 24, 32} ELSE {32, 64}, ivs |-> IF m = "ECB" THEN {0} ELSE IF m = "CFB" THEN {16, 8} ELSE {16}, infos |-> IF n = "AES" THEN {0} ELSE {0, 9},
   bad |-> {<<15, 16>>, <<0, 16>>} \cup (IF m = "ECB" THEN {} ELSE IF m = "CFB" THEN {<<32, 0>>} ELSE {<<32, 0>>, <<32, 17>>}),
   pars |-> {[on |-> FALSE, size |-> 0, degree |-> 0]} \cup (IF m = "OFB" THEN {} ELSE {[on |-> TRUE, size |-> g * 16 * 8 * f, degree |-> g] : g \in {2, 4}, f \in {1, 2}})]
Pads == {"ESP", "PKCS7", "X923", "ZeroOne"}
Ciphers == {C(m, n, how, p, 16) : m \in {"CBC", "CFB", "OFB", "ECB"}, n \in {"AES", "RHXS256"}, how \in {"enum", "ptr"}, p \in Pads}
      \cup {C(m, n, how, "None", 16) : m \in {"CTR", "ICM"}, n \in {"AES", "RHXS256"}, how \in {"enum", "ptr"}}
      \cup {C(m, "AES", "ptr", "None", 16) : m \in {"CBC", "ECB", "CFB"}}
      \cup {C("CFB", "AES", "ptr", p, r) : p \in Pads, r \in {1, 8}}
SweepCiphers == {x \in Ciphers : x.n = "AES" /\ (x.how = "enum" \/ x.pad = "None") /\ x.b = 16}
G(n, b, how, tree) == [k |-> "digest", m |-> tree, n |-> n, how |-> how, b |-> b, again |-> TRUE]
Digests == {G(x[1], x[2], how, t) : x \in {<<"Blake256", 64>>, <<"Blake512", 128>>, <<"SHA2256", 64>>, <<"SHA2512", 128>>, <<"SHA3256", 136>>, <<"SHA3512", 72>>, <<"Skein256", 32>>, <<"Skein512", 64>>, <<"Skein1024", 128>>},
                                     how \in {"enum", "ptr"}, t \in {"seq", "tree"}}
M(n, b, how, keys, ivs, infos, bad, again) == [k |-> "mac", m |-> "", n |-> n, how |-> how, b |-> b, keys |-> keys, ivs |-> ivs, infos |-> infos, bad |-> bad, again |-> again]
Macs == UNION {{M("HMACSHA2256", 64, h, {32, 64}, {0}, {0}, {<<7, 0>>}, TRUE), M("HMACSHA2512", 128, h, {64, 128}, {0}, {0}, {<<7, 0>>}, TRUE),
                M("KMAC128", 168, h, {16}, {0, 16}, {0}, {<<15, 0>>}, FALSE), M("KMAC256", 136, h, {32}, {0, 32}, {0}, {<<15, 0>>}, FALSE), M("KMAC512", 72, h, {64}, {0, 64}, {0}, {<<15, 0>>}, FALSE),
                M("CMAC", 16, h, {16, 24, 32}, {0}, {0}, {<<15, 0>>}, FALSE), M("CMACRHXS512", 16, h, {32, 64}, {0}, {0, 7}, {<<15, 0>>}, FALSE),
                M("KPA256", 1088, h, {32}, {0, 16}, {0}, {<<15, 0>>}, FALSE), M("Poly1305", 16, h, {32}, {0}, {0}, {<<31, 0>>}, FALSE)} : h \in {"enum", "ptr"}}
Hashes == Digests \cup Macs

ToyCfg == {[k |-> "toy"]}
Emit == done => PrintT(<<"BEH", ToJson([c |-> c, h |-> hist])>>)
=============================================================================
