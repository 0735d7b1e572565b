-------------------------------- MODULE Aead --------------------------------
(* Authenticated encryption between two objects of one cipher: the GCM mode,    *)
(* the HBA mode, and the stream ciphers with their MAC.                         *)
(*                                                                              *)
(* Cryptography is symbolic: a ciphertext is its session, counter and plaintext;*)
(* a tag is the term <<MAC key, ratchet, chain>> of everything the MAC absorbed.*)
(* What differs between the three kinds is how the MAC goes on after a message: *)
(*   strm - the chain is never closed, so every earlier message is part of it;  *)
(*   hba  - the MAC key is replaced by one derived from it and the byte count;  *)
(*   gcm  - one message for each initialization.                                *)
(* A network between the objects may flip, cut or stretch what it delivers,     *)
(* deliver messages again, out of order or not at all, and change the           *)
(* associated data; the receiver may have a wrong key or nonce.                 *)
(* Invariants: what is accepted is what was sent, in order and in full          *)
(* (Authentic, Order), and an undisturbed message is accepted (Complete).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Profiles, Lens, AdLens, Steps, Gen
VARIABLES pf, ses, swap, par, snd, rcv, sent, got, clean, last, prog, n, hist, done
vars == <<pf, ses, swap, par, snd, rcv, sent, got, clean, last, prog, n, hist, done>>

Party == [st |-> "raw", key |-> <<>>, ctr |-> 0, cnt |-> 0, mk |-> <<>>, chain |-> <<>>, ads |-> <<>>]
NoSes == [k |-> 0, iv |-> 0, ivl |-> 0, info |-> 0, s |-> 0, ns |-> 0]
Off == [on |-> FALSE, size |-> 0, degree |-> 0]
NoLast == [acc |-> FALSE, same |-> FALSE, order |-> FALSE, clean |-> FALSE, ever |-> FALSE]
Blocks(x) == (x + pf.b - 1) \div pf.b
Log(e) == n' = n + 1 /\ hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Id == n + 1

\* tokens the MAC absorbs: <<kind, length, what, where it was altered>>
AdTok(a) == <<"ad", a.n, a.s, a.at>>
Toks(p, ads) == [i \in 1 .. Len(ads) |-> AdTok(ads[i])]
Bytes(p, len) == p.cnt + len
Chain(p, ads, ct, len) == p.chain \o Toks(p, ads) \o <<<<"nonce", 0, 0, p.ctr>>, ct, <<"cnt", Bytes(p, len), 0, 0>>>>
Tag(p, ads, ct, len) == <<p.key, p.mk, Chain(p, ads, ct, len)>>
\* the object after a message; advance: its keystream was used
After(p, ads, ct, len, advance) ==
    [p EXCEPT !.st = IF pf.kind = "gcm" THEN "used" ELSE "ready",
              !.ctr = IF advance THEN @ + Blocks(len) ELSE @,
              !.cnt = Bytes(p, len),
              !.mk = IF pf.kind = "hba" THEN Append(@, Bytes(p, len)) ELSE @,
              !.chain = IF pf.kind = "strm" THEN Append(Chain(p, ads, ct, len), <<"fin", 0, 0, 0>>) ELSE <<>>,
              !.ads = <<>>]

Init == /\ pf \in Profiles /\ ses = NoSes /\ swap = FALSE /\ par = Off /\ snd = Party /\ rcv = Party /\ sent = <<>> /\ got = <<>>
        /\ clean = TRUE /\ last = NoLast /\ prog = <<>> /\ n = 0 /\ hist = <<>> /\ done = FALSE

Keyed(s, df, at) == [Party EXCEPT !.st = "ready", !.key = <<s.k, s.iv, s.ivl, s.info, s.s, s.ns, df, at>>]
\* both objects start a session; sw: the former receiver becomes the sender
Session(k, iv, info, sw, df, at) ==
    LET s == [k |-> k, iv |-> iv[1], ivl |-> iv[2], info |-> info, s |-> Id, ns |-> Id] IN
    /\ ses' = s /\ swap' = sw /\ snd' = Keyed(s, "none", 0) /\ rcv' = Keyed(s, df, at)
    /\ got' = <<>> /\ clean' = TRUE /\ last' = NoLast
    /\ Log([op |-> "ses", ses |-> s, swap |-> sw, df |-> df, at |-> at]) /\ UNCHANGED <<pf, par, sent, prog>>
\* both objects keep their key and get another nonce; a repeated nonce and one without any key are refused
Renonce(iv, again) ==
    LET s == [ses EXCEPT !.iv = iv[1], !.ivl = iv[2], !.ns = Id]
        bad == again \/ ses.s = 0 IN
    /\ pf.kind = "gcm" /\ (again => ses.s # 0 /\ snd.st # "raw" /\ rcv.st # "raw")
    /\ (ses.s # 0 => rcv.st # "raw" /\ snd.st # "raw" /\ rcv.key = snd.key)
    /\ ses' = IF bad THEN ses ELSE s
    /\ snd' = (IF bad THEN Party ELSE Keyed(s, "none", 0)) /\ rcv' = (IF bad THEN Party ELSE Keyed(s, "none", 0))
    /\ got' = <<>> /\ clean' = TRUE /\ last' = NoLast
    /\ Log([op |-> "renonce", ses |-> IF again THEN ses ELSE s, exp |-> IF bad THEN "throw" ELSE "ok", swap |-> swap])
    /\ UNCHANGED <<pf, swap, par, sent, prog>>
\* the receiver starts over
Rejoin(df, at) ==
    /\ ses.s # 0 /\ rcv' = Keyed(ses, df, at) /\ got' = <<>> /\ clean' = TRUE /\ last' = NoLast
    /\ Log([op |-> "rejoin", ses |-> ses, swap |-> swap, df |-> df, at |-> at]) /\ UNCHANGED <<pf, ses, swap, par, snd, sent, prog>>
Ad(len, sec) ==
    /\ snd.st = "ready" /\ Len(snd.ads) < pf.maxad
    /\ snd' = [snd EXCEPT !.ads = Append(@, [n |-> len, s |-> Id, at |-> -1])]
    /\ last' = NoLast
    /\ Log([op |-> "ad", n |-> len, s |-> Id, sec |-> sec, swap |-> swap]) /\ UNCHANGED <<pf, ses, swap, par, rcv, sent, got, clean, prog>>
Encrypt(len, io, oo) ==
    /\ snd.st = "ready"
    /\ LET ct == <<"ct", len, Len(sent) + 1, -1>>
           m == [n |-> len, ses |-> <<ses.s, ses.ns>>, tag |-> Tag(snd, snd.ads, ct, len), ads |-> snd.ads] IN
       /\ sent' = Append(sent, m) /\ snd' = After(snd, snd.ads, ct, len, TRUE)
       /\ Log([op |-> "enc", w |-> Len(sent) + 1, n |-> len, s |-> Id, ses |-> ses, swap |-> swap, io |-> io, oo |-> oo, ctr |-> snd.ctr,
               mk |-> snd.mk, chain |-> Chain(snd, snd.ads, ct, len)])
    /\ last' = NoLast /\ UNCHANGED <<pf, ses, swap, par, rcv, got, clean, prog>>
\* the associated data the receiver is given
AdVar(ads, adv, at) ==
    CASE adv = "same" -> ads
      [] adv = "none" -> <<>>
      [] adv = "flip" -> [ads EXCEPT ![1].at = at]
      [] adv = "extra" -> Append(ads, [n |-> 7, s |-> Id, at |-> -1])
      [] adv = "split" -> <<[ads[1] EXCEPT !.n = @ - 1], [ads[1] EXCEPT !.n = 1, !.at = -2]>> \o Tail(ads)
      [] adv = "turn" -> <<ads[2], ads[1]>>
AdvOk(ads, adv) == \/ adv = "same"
                   \/ adv \in {"none", "flip"} /\ ads # <<>>
                   \/ adv = "extra" /\ Len(ads) < pf.maxad
                   \/ adv = "split" /\ pf.framed /\ Len(ads) = 1 /\ ads[1].n > 1
                   \/ adv = "turn" /\ Len(ads) = 2
\* the first message of the receiver's session that it has not had
Mine == SelectSeq([i \in 1 .. Len(sent) |-> IF sent[i].ses = <<ses.s, ses.ns>> THEN i ELSE 0], LAMBDA i : i # 0)
Due == IF Len(got) < Len(Mine) THEN Mine[Len(got) + 1] ELSE 0
Deliver(w, adv, at, tam, pos, io, oo) ==
    /\ rcv.st = "ready" /\ w <= Len(sent) /\ AdvOk(sent[w].ads, adv)
    /\ LET m == sent[w]
           len == CASE tam = "cut" -> m.n - 1 [] tam = "ext" -> m.n + 1 [] OTHER -> m.n
           ads == AdVar(m.ads, adv, at)
           ct == <<"ct", len, w, IF tam = "ct" THEN pos ELSE IF tam \in {"cut", "ext"} THEN -3 ELSE -1>>
           acc == Tag(rcv, ads, ct, len) = m.tag /\ tam \notin {"tag", "tag2"}
           same == m.ses = <<ses.s, ses.ns>> /\ rcv.key = Keyed(ses, "none", 0).key /\ adv = "same" /\ tam = "none"
           order == Due = w IN
       /\ len >= 0
       /\ rcv' = After(rcv, ads, ct, len, acc)
       /\ got' = IF acc THEN Append(got, w) ELSE got
       /\ clean' = (clean /\ acc)
       /\ last' = [acc |-> acc, same |-> same, order |-> order, clean |-> clean, ever |-> TRUE]
       /\ Log([op |-> "dlv", w |-> w, adv |-> adv, at |-> at, ads |-> ads, tam |-> tam, pos |-> pos, io |-> io, oo |-> oo, n |-> len, swap |-> swap,
               exp |-> IF acc THEN "yes" ELSE IF same /\ order /\ ~clean THEN "any" ELSE "no"])
    /\ UNCHANGED <<pf, ses, swap, par, snd, sent, prog>>
Configure(p) == par' = p /\ last' = NoLast /\ Log([op |-> "par", par |-> p]) /\ UNCHANGED <<pf, ses, swap, snd, rcv, sent, got, clean, prog>>
Query == ses.s # 0 /\ snd.st = "ready" /\ Log([op |-> "q", swap |-> swap]) /\ last' = NoLast /\ UNCHANGED <<pf, ses, swap, par, snd, rcv, sent, got, clean, prog>>

PLen == IF par.on THEN par.size ELSE 8 * pf.b
WLens == {0, 1, pf.b - 1, pf.b, pf.b + 1, 2 * pf.b, 5 * pf.b + 7, 8 * pf.b, PLen - 1, PLen, PLen + 1, 2 * PLen + 9 * pf.b, PLen + 4 * pf.b + 13}
\* an empty message does not move the counter; sessions have none, so that a failed attempt always leaves a trace
Ls == (IF Gen = "no" THEN Lens ELSE WLens) \ (IF pf.kind = "gcm" THEN {} ELSE {0})
Offs == IF Gen = "no" THEN {0} ELSE {0, 3}
Ats == IF Gen = "no" THEN {0} ELSE {0, 3, 7, 9}
Tams == {"none", "ct", "tag", "cut", "ext"}
Where(w, tam) == IF Gen = "no" \/ tam \notin {"ct", "tag"} THEN {0}
                 ELSE IF tam = "ct" THEN {0, sent[w].n \div 2, sent[w].n - 1} ELSE {0, pf.tag \div 2, pf.tag - 1}
Free == /\ n < Steps /\ done' = FALSE
        /\ \/ \E k \in pf.keys, iv \in pf.ivs, i \in pf.infos, sw \in BOOLEAN : Session(k, iv, i, sw, "none", 0)
           \/ \E k \in pf.keys, iv \in pf.ivs, i \in pf.infos, sw \in BOOLEAN, df \in pf.dfs, at \in Ats : Session(k, iv, i, sw, df, at)
           \/ \E iv \in pf.ivs : (iv[1] = 0 \/ Gen = "no") /\ Renonce(iv, FALSE)
           \/ Renonce(<<0, 0>>, TRUE)
           \/ Rejoin("none", 0)
           \/ \E df \in pf.dfs, at \in Ats : Rejoin(df, at)
           \/ \E l \in AdLens, sec \in BOOLEAN : Ad(l, sec)
           \/ \E l \in Ls, io \in Offs, oo \in Offs : Encrypt(l, io, oo)
           \/ \E w \in 1 .. Len(sent), io \in Offs, oo \in Offs : Deliver(w, "same", 0, "none", 0, io, oo)
           \/ \E w \in 1 .. Len(sent), adv \in {"same", "none", "flip", "extra", "split", "turn"}, tam \in Tams :
                  (adv # "same" \/ tam # "none") /\ (tam \in {"ct", "cut"} => sent[w].n > 0) /\ \E p \in Where(w, tam) : Deliver(w, adv, 0, tam, p, 0, 0)
           \/ \E p \in pf.pars : Configure(p)
           \/ Query
Stop == done' = TRUE /\ UNCHANGED <<pf, ses, swap, par, snd, rcv, sent, got, clean, last, prog, n, hist>>
Next == Free \/ (n = Steps /\ ~done /\ Stop)
\* random walks that talk: a session is opened, messages are sent and mostly delivered
Talk == /\ n < Steps /\ done' = FALSE
        /\ IF n = 0 THEN \E p \in pf.pars : Configure(p)
           ELSE IF ses.s = 0 \/ (pf.kind = "gcm" /\ snd.st = "used" /\ rcv.st = "used") \/ n % 7 = 0
                THEN \E k \in pf.keys, iv \in pf.ivs, i \in pf.infos, sw \in BOOLEAN : Session(k, iv, i, sw, "none", 0)
           ELSE \/ \E l \in AdLens, sec \in BOOLEAN : Ad(l, sec)
                \/ \E l \in Ls, io \in Offs, oo \in Offs : Encrypt(l, io, oo)
                \/ Due # 0 /\ \E io \in Offs, oo \in Offs : Deliver(Due, "same", 0, "none", 0, io, oo)
                \/ \E w \in 1 .. Len(sent) : Deliver(w, "same", 0, "none", 0, 0, 0)
                \/ \E w \in 1 .. Len(sent), adv \in {"none", "flip", "extra", "split", "turn"} : Deliver(w, adv, 0, "none", 0, 0, 0)
                \/ \E w \in 1 .. Len(sent), tam \in {"cut", "ext"} : (tam = "cut" => sent[w].n > 0) /\ Deliver(w, "same", 0, tam, 0, 0, 0)
                \/ Rejoin("none", 0)
                \/ \E iv \in pf.ivs : (iv[1] = 0 \/ Gen = "no") /\ Renonce(iv, FALSE)
                \/ \E p \in pf.pars : Configure(p)
                \/ Query
TalkNext == Talk \/ (n = Steps /\ ~done /\ Stop)
\* random walks through long undisturbed sessions: every message is delivered once, in order
Chat == /\ n < Steps /\ done' = FALSE
        /\ IF n = 0 THEN \E p \in pf.pars : Configure(p)
           ELSE IF ses.s = 0 \/ (pf.kind = "gcm" /\ snd.st = "used" /\ rcv.st = "used") \/ n = Steps \div 2 + 3
                THEN \E k \in pf.keys, iv \in pf.ivs, i \in pf.infos, sw \in BOOLEAN : Session(k, iv, i, sw, "none", 0)
           ELSE IF Due # 0 THEN \E io \in Offs, oo \in Offs : Deliver(Due, "same", 0, "none", 0, io, oo)
           ELSE \/ \E l \in AdLens, sec \in BOOLEAN : Ad(l, sec)
                \/ \E l \in Ls, io \in Offs, oo \in Offs : Encrypt(l, io, oo)
ChatNext == Chat \/ (n = Steps /\ ~done /\ Stop)

\* -- sweep: one message; the receiver tries it with each byte altered, in turn ---
\* (a long message: sampled bytes); pairs of tag bytes altered alike
Seen(len) == IF len < 500 THEN [i \in 1 .. len |-> i - 1] ELSE <<0, 15, 100, 4095, 4096, len \div 2, len - 17, len - 1>>
Pairs == [i \in 1 .. pf.tag |-> <<"tag2", i - 1>>]
Items(k, ivl, len, adlen) ==
    IF len >= 500 THEN [i \in 1 .. Len(Seen(len)) |-> <<"ct", Seen(len)[i]>>] \o <<<<"tag", 0>>, <<"tag", pf.tag - 1>>, <<"key", 0>>>> \o
         (IF "nonce" \in pf.dfs THEN <<<<"nonce", ivl - 1>>>> ELSE <<>>) \o (IF adlen > 0 THEN <<<<"ad", 0>>, <<"ad", adlen - 1>>>> ELSE <<>>) \o <<<<"none", 0>>>>
    ELSE IF pf.dfs = {"nonce"} THEN [i \in 1 .. ivl |-> <<"nonce", i - 1>>]
    ELSE [i \in 1 .. len |-> <<"ct", i - 1>>] \o [i \in 1 .. pf.tag |-> <<"tag", i - 1>>] \o Pairs \o [i \in 1 .. k |-> <<"key", i - 1>>] \o
         (IF "nonce" \in pf.dfs THEN [i \in 1 .. ivl |-> <<"nonce", i - 1>>] ELSE <<>>) \o [i \in 1 .. adlen |-> <<"ad", i - 1>>] \o <<<<"none", 0>>>>
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ /\ n = 0
             /\ \E k \in pf.keys, iv \in pf.swivs, i \in pf.infos, len \in Lens, al \in AdLens :
                   /\ LET s == [k |-> k, iv |-> iv[1], ivl |-> iv[2], info |-> i, s |-> Id, ns |-> Id] IN
                      /\ ses' = s /\ snd' = Keyed(s, "none", 0) /\ rcv' = Keyed(s, "none", 0)
                      /\ Log([op |-> "ses", ses |-> s, swap |-> FALSE, df |-> "none", at |-> 0])
                   /\ prog' = <<<<"len", len>>, <<"al", al>>>> \o Items(k, iv[2], len, al)
                   /\ UNCHANGED <<pf, swap, par, sent, got, clean, last>>
          \/ n = 1 /\ Ad(prog[2][2], FALSE)
          \/ n = 2 /\ Encrypt(prog[1][2], 0, 0)
          \/ n > 2 /\ n % 2 = 1 /\ (n - 3) \div 2 + 3 <= Len(prog) /\
                LET p == prog[(n - 3) \div 2 + 3] IN Rejoin(IF p[1] \in {"key", "nonce"} THEN p[1] ELSE "none", p[2])
          \/ n > 2 /\ n % 2 = 0 /\
                LET p == prog[(n - 4) \div 2 + 3] IN
                Deliver(1, IF p[1] = "ad" THEN "flip" ELSE "same", p[2], IF p[1] \in {"ct", "tag", "tag2"} THEN p[1] ELSE "none", p[2], 0, 0)
    \/ n > 2 /\ n % 2 = 1 /\ (n - 3) \div 2 + 3 > Len(prog) /\ ~done /\ Stop
-------------------------------------------------------------------------------
Authentic == last.ever /\ last.acc => last.same
Order == last.ever /\ last.acc => last.order
Complete == last.ever /\ last.same /\ last.order /\ last.clean => last.acc
TypeOK == snd.st \in {"raw", "ready", "used"} /\ rcv.st \in {"raw", "ready", "used"}

Kind(nm, kind, maxad) == [n |-> nm, kind |-> kind, b |-> 2, keys |-> {1}, ivs |-> {<<0, 1>>}, swivs |-> {<<0, 1>>}, infos |-> {0}, tag |-> 2, maxad |-> maxad, framed |-> TRUE,
                          pars |-> {}, cipher |-> "", eng |-> "", dfs |-> {"key", "nonce"}]
MCProfiles == {Kind("strm", "strm", 2), Kind("hba", "hba", 2), Kind("gcm", "gcm", 1)}
View == <<pf, ses, swap, snd, rcv, sent, got, clean, last, n>>
\* -- the library's ciphers -----------------------------------------------------
Par(b, g, f) == [on |-> TRUE, size |-> g * b * 8 * f, degree |-> g]
S(nm, b, keys, ivl, infos, tag, framed) ==
    [n |-> nm, kind |-> "strm", b |-> b, keys |-> keys, ivs |-> {<<0, ivl>>, <<1, ivl>>, <<2, ivl>>}, swivs |-> {<<0, ivl>>}, infos |-> infos, tag |-> tag, maxad |-> 3, framed |-> framed,
     pars |-> {Off, Par(b, 2, 1), Par(b, 4, 2), Par(b, 8, 1)}, cipher |-> "", eng |-> "auth", dfs |-> IF nm = "ChaChaP20" THEN {"key"} ELSE {"key", "nonce"}]
Streams == {S("RCS", 32, {32}, 32, {0, 16}, 32, TRUE), S("RCS", 32, {64}, 32, {0, 16}, 64, TRUE),
            S("RWS", 64, {16}, 64, {0, 16}, 16, TRUE), S("RWS", 64, {32}, 64, {0, 16}, 32, TRUE), S("RWS", 64, {64}, 64, {0, 16}, 64, TRUE),
            S("ChaChaP20", 64, {32}, 8, {0, 16}, 32, FALSE), S("CSX512", 128, {64}, 16, {0, 48}, 64, TRUE),
            S("TSX256", 32, {32}, 16, {0, 16}, 32, TRUE), S("TSX512", 64, {64}, 16, {0, 16}, 64, TRUE), S("TSX1024", 128, {128}, 16, {0, 16}, 128, TRUE)}
Gc(c, keys, eng) == [n |-> "GCM", kind |-> "gcm", b |-> 16, keys |-> keys, ivs |-> {<<0, 12>>, <<0, 16>>, <<1, 16>>, <<0, 10>>, <<0, 13>>, <<1, 32>>, <<0, 61>>}, swivs |-> {<<0, 12>>, <<0, 16>>},
                     infos |-> {0}, tag |-> 16, maxad |-> 1, framed |-> FALSE, pars |-> {Off, Par(16, 2, 1), Par(16, 4, 2), Par(16, 8, 1)}, cipher |-> c, eng |-> eng, dfs |-> {"key", "nonce"}]
Gcms == {Gc("AES", {16, 24, 32}, "enum"), Gc("AES", {16, 24, 32}, "engine"), Gc("Serpent", {16, 24, 32}, "enum"), Gc("Serpent", {32}, "engine"),
         Gc("RHXS256", {32, 64}, "enum"), Gc("RHXH512", {32, 64}, "engine"), Gc("SHXS256", {32, 64}, "enum"), Gc("SHXH256", {32, 64}, "engine")}
HbTag(a) == CASE a = "KMAC256" -> 32 [] a = "KMAC512" -> 64 [] a = "HMACSHA2256" -> 32 [] a = "HMACSHA2512" -> 64 [] a = "Poly1305" -> 16
Hb(c, keys, eng, a, infos) == [n |-> a, kind |-> "hba", b |-> 16, keys |-> keys, ivs |-> {<<0, 16>>, <<1, 16>>, <<2, 16>>}, swivs |-> {<<0, 16>>}, infos |-> infos, tag |-> HbTag(a), maxad |-> 3, framed |-> TRUE,
                               pars |-> {Off, Par(16, 2, 1), Par(16, 4, 2), Par(16, 8, 1)}, cipher |-> c, eng |-> eng, dfs |-> {"key", "nonce"}]
Auths == {"KMAC256", "KMAC512", "HMACSHA2256", "HMACSHA2512", "Poly1305"}
Hbas == {Hb("AES", {16, 24, 32}, "enum", a, {0, 16}) : a \in Auths} \cup {Hb("Serpent", {16, 24, 32}, "engine", a, {0}) : a \in Auths}
        \cup {Hb("RHXS256", {32, 64}, "engine", a, {0, 16}) : a \in Auths} \cup {Hb("RHXH512", {64}, "enum", a, {0, 16}) : a \in Auths}
        \cup {Hb("SHXS512", {32, 64}, "enum", a, {0, 16}) : a \in Auths}
All == Streams \cup Gcms \cup Hbas
SweepSet == {[p EXCEPT !.infos = {0}] : p \in All} \cup {[S("ChaChaP20", 64, {32}, 8, {0}, 32, FALSE) EXCEPT !.dfs = {"nonce"}]}
Emit == done => PrintT(<<"BEH", ToJson([pf |-> pf, h |-> hist])>>)
=============================================================================
