--------------------------------- MODULE Drbg ---------------------------------
(* The deterministic generators BCG (counter mode), CSG (cSHAKE sponge) and HCG  *)
(* (HMAC chain).                                                                 *)
(*                                                                               *)
(* A generator is a list of events since its key was loaded (ev): fills of the   *)
(* block buffer, user updates, entropy derivations.  The events determine a      *)
(* virtual stream of b-byte blocks; every request is answered with the bytes     *)
(* [pos, pos + n) of that stream.  The values of the blocks are computed from    *)
(* ev by an independent reference.  Invariants: no byte of the stream is handed  *)
(* out twice or out of order, an update or a derivation cuts the stream (nothing *)
(* made under the old key is handed out after it), entropy is drawn before more  *)
(* than the threshold was produced, and the number of reseeds is bounded.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Gens,      \* profiles [n, kind, b, prov, pn, keys, bad, ivs, badivs, infos, upds, badupds, thrs, pars]
          MaxReseed, DefThr, Steps, Gen
VARIABLES g, st, ev, fills, cached, zer, counter, reseed, thr, ppos, upto, cut, last, hist, done
vars == <<g, st, ev, fills, cached, zer, counter, reseed, thr, ppos, upto, cut, last, hist, done>>

Kind == g.kind
Min(a, b) == IF a < b THEN a ELSE b
Blocks(n) == (n + g.b - 1) \div g.b
Nothing == [pos |-> 0, n |-> 0]
Init == /\ g \in Gens /\ st = "raw" /\ ev = <<>> /\ fills = 0 /\ cached = 0 /\ zer = 0 /\ counter = 0 /\ reseed = 0
        /\ thr = DefThr /\ ppos = 0 /\ upto = 0 /\ cut = 0 /\ last = Nothing /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Same == UNCHANGED g
Kept == UNCHANGED <<st, ev, fills, cached, zer, counter, reseed, thr, ppos, upto, cut, last>> /\ Same
S == Len(hist) + 1

Load(k, iv, info) ==
    /\ st' = "ready" /\ fills' = 0 /\ cached' = 0 /\ zer' = 0 /\ counter' = 0 /\ reseed' = 0 /\ upto' = 0 /\ cut' = 0 /\ last' = Nothing
    /\ ev' = <<[t |-> "load", k |-> k, iv |-> iv, info |-> info, s |-> IF Gen = "no" THEN 0 ELSE S]>>
    /\ Log([op |-> "init", k |-> k, iv |-> iv, info |-> info, s |-> S, exp |-> "ok"]) /\ UNCHANGED <<thr, ppos>> /\ Same
LoadBad(k, iv) == Log([op |-> "init", k |-> k, iv |-> iv, info |-> 0, s |-> S, exp |-> "throw"]) /\ Kept

\* -- drawing entropy: what it appends to the events and does to the buffer -----
F(z, k) == [t |-> "fill", z |-> z, k |-> k]
P(z) == [t |-> "prov", z |-> z, at |-> ppos, n |-> g.pn]
\* <<events, fills, cached, zer>> after a derivation of a generator at (e, f, c, z)
Derived(e, f, c, z) ==
    CASE Kind = "csg" -> <<Append(e, P(0)), f + 1, g.b, 0>>
      [] Kind = "hcg" -> <<Append(e, P(z)), f + 2, g.b, 0>>
      [] OTHER -> <<e \o <<F(0, 1), [t |-> "auto", at |-> ppos, n |-> g.pn]>>, f + 1, 0, 0>>
Cost == IF Kind = "bcg" THEN 2 ELSE 1       \* a counter generator's own reseed also counts as an update

\* -- a request of n bytes --------------------------------------------------------
Gener(n, off, sec) ==
    /\ st = "ready"
    /\ LET from == IF Kind = "bcg" THEN fills * g.b ELSE fills * g.b - cached
           rest == IF Kind = "bcg" THEN n ELSE n - Min(cached, n)
           k == Blocks(rest)
           c1 == IF Kind = "bcg" THEN 0 ELSE IF k = 0 THEN cached - n ELSE k * g.b - rest
           z1 == IF Kind # "hcg" THEN 0 ELSE IF k = 0 THEN zer ELSE IF c1 = 0 THEN 0 ELSE g.b - c1
           e1 == IF k = 0 THEN ev ELSE Append(ev, F(zer, k))
           cnt == counter + n
           due == g.prov /\ cnt >= thr
           over == due /\ reseed + Cost > MaxReseed
           d == Derived(e1, fills + k, c1, z1)
       IN
       /\ last' = [pos |-> from, n |-> n]
       /\ upto' = (IF n = 0 THEN upto ELSE from + n)
       /\ IF over
          THEN /\ st' = "spent" /\ ev' = e1 /\ fills' = fills + k /\ cached' = c1 /\ zer' = z1 /\ counter' = cnt /\ reseed' = reseed + 1
               /\ UNCHANGED <<ppos, cut>>
          ELSE /\ st' = st
               /\ IF due
                  THEN ev' = d[1] /\ fills' = d[2] /\ cached' = d[3] /\ zer' = d[4] /\ counter' = 0 /\ reseed' = reseed + Cost
                       /\ ppos' = ppos + g.pn /\ cut' = (IF Kind = "bcg" THEN d[2] ELSE d[2] - 1)
                  ELSE ev' = e1 /\ fills' = fills + k /\ cached' = c1 /\ zer' = z1 /\ counter' = (IF g.prov THEN cnt ELSE counter) /\ UNCHANGED <<reseed, ppos, cut>>
       /\ Log([op |-> "gen", n |-> n, off |-> off, sec |-> sec, pos |-> from, ev |-> e1, exp |-> IF over THEN "throw" ELSE "ok"])
    /\ UNCHANGED thr /\ Same
\* no key, or more than the output has room for: refused, nothing changes
GenBad(n, off, sec) == st # "spent" /\ Log([op |-> "gen", n |-> n, off |-> off, sec |-> sec, short |-> (st = "ready"), exp |-> "throw"]) /\ Kept

Update(k, many) ==
    /\ st = "ready" /\ reseed + many <= MaxReseed /\ (many > 1 => Gen # "no")
    /\ reseed' = reseed + many
    /\ LET u == [t |-> "upd", k |-> k, s |-> IF Gen = "no" THEN 0 ELSE S, z |-> zer, many |-> many, at |-> ppos, n |-> IF g.prov /\ Kind # "hcg" THEN g.pn ELSE 0]
           per == CASE Kind = "bcg" -> 0 [] Kind = "hcg" -> 2 [] OTHER -> IF g.prov THEN 2 ELSE 1 IN
       /\ ev' = Append(ev, u) /\ fills' = fills + per * many /\ zer' = 0
       /\ cached' = (IF Kind = "bcg" THEN 0 ELSE g.b) /\ cut' = (IF Kind = "bcg" THEN fills ELSE fills' - 1)
       /\ counter' = (IF Kind = "bcg" THEN 0 ELSE counter)
       /\ ppos' = ppos + many * u.n
    /\ Log([op |-> "upd", k |-> k, s |-> S, many |-> many, exp |-> "ok"])
    /\ UNCHANGED <<st, thr, upto, last>> /\ Same
\* too small a key is refused without a trace
UpdateBad(k) == st = "ready" /\ Log([op |-> "upd", k |-> k, s |-> S, many |-> 1, exp |-> "throw"]) /\ Kept
\* one update too many
UpdateOver(k) ==
    /\ st = "ready" /\ reseed = MaxReseed
    /\ Log([op |-> "upd", k |-> k, s |-> S, many |-> 1, exp |-> "throw"])
    /\ st' = "spent" /\ UNCHANGED <<ev, fills, cached, zer, counter, reseed, thr, ppos, upto, cut, last>> /\ Same
SetThr(t) == thr' = t /\ Log([op |-> "thr", v |-> t]) /\ UNCHANGED <<st, ev, fills, cached, zer, counter, reseed, ppos, upto, cut, last>> /\ Same
Configure(p) == Log([op |-> "par", par |-> p]) /\ Kept
Query == Log([op |-> "q", v |-> (st # "raw")]) /\ Kept

Lens == {0, 1, 5, g.b - 1, g.b, g.b + 1, 2 * g.b, 3 * g.b + 7, 8 * g.b, 8 * g.b + 1, 16 * g.b + 3}
        \cup UNION {{p.size - 1, p.size, p.size + 33, 3 * p.size} : p \in {q \in g.pars : q.on}}
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E k \in g.keys, iv \in g.ivs, i \in g.infos : Load(k, iv, i)
           \/ \E k \in g.bad, iv \in g.ivs : LoadBad(k, iv)
           \/ \E k \in g.keys, iv \in g.badivs : LoadBad(k, iv)
           \/ \E n \in Lens, o \in {0, 3}, s \in BOOLEAN : Gener(n, o, s)
           \/ \E n \in {1, g.b}, o \in {0, 3}, s \in BOOLEAN : GenBad(n, o, s)
           \/ \E k \in g.upds : Update(k, 1)
           \/ \E k \in g.badupds : UpdateBad(k)
           \/ \E t \in g.thrs : SetThr(t)
           \/ \E p \in g.pars : Configure(p)
           \/ Query
Stop == done' = TRUE /\ UNCHANGED <<g, st, ev, fills, cached, zer, counter, reseed, thr, ppos, upto, cut, last, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == /\ done' = FALSE
          /\ \/ Load(1, 0, 0)
             \/ \E n \in 0 .. 7 : Gener(n, 0, FALSE)
             \/ Update(1, 1) \/ UpdateBad(0) \/ UpdateOver(1) \/ GenBad(1, 0, FALSE)
             \/ \E t \in g.thrs : SetThr(t)
MCSpec == Init /\ [][MCNext]_vars

\* every cut of a stream into three requests around the block size, without and with a derivation or an update between
One(S_) == CHOOSE x \in S_ : \A y \in S_ : x <= y
Max_(S_) == CHOOSE x \in S_ : \A y \in S_ : x >= y
Cuts == {1, g.b - 1, g.b, g.b + 1, 2 * g.b + 5}
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E t \in {DefThr} \cup {x \in g.thrs : x = One(g.thrs) \/ x = g.b} : SetThr(t)
          \/ Len(hist) = 1 /\ \E iv \in {One(g.ivs), Max_(g.ivs)}, i \in {One(g.infos), Max_(g.infos)} : Load(One(g.keys), iv, i)
          \/ Len(hist) = 2 /\ \E n \in Cuts : Gener(n, 0, FALSE)
          \/ Len(hist) = 3 /\ \E n \in Cuts : Gener(n, 0, TRUE)
          \/ Len(hist) = 4 /\ \/ \E n \in {0, g.b} : Gener(n, 0, FALSE)
                              \/ Update(One(g.upds), 1)
          \/ Len(hist) = 5 /\ Gener(2 * g.b + 3, 0, FALSE)
    \/ Len(hist) = 6 /\ ~done /\ Stop
\* every key, vector and customization size once
KeyNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E k \in g.keys, iv \in g.ivs, i \in g.infos : Load(k, iv, i)
          \/ Len(hist) = 1 /\ Gener(g.b + 9, 0, FALSE)
          \/ Len(hist) = 2 /\ \E k \in g.upds : Update(k, 1)
          \/ Len(hist) = 3 /\ Gener(g.b, 0, FALSE)
    \/ Len(hist) = 4 /\ ~done /\ Stop
\* the reseed limit, and that loading a key clears the count
LimitNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) \in {0, 5} /\ Load(One(g.keys), Max_(g.ivs), 0)
          \/ Len(hist) = 1 /\ Update(One(g.upds), MaxReseed - 1)
          \/ Len(hist) = 2 /\ Gener(5, 0, FALSE)
          \/ Len(hist) = 3 /\ Update(One(g.upds), 1)
          \/ Len(hist) = 4 /\ UpdateOver(One(g.upds))
          \/ Len(hist) = 6 /\ Update(One(g.upds), 1)
          \/ Len(hist) = 7 /\ Gener(40, 0, FALSE)
    \/ Len(hist) = 8 /\ ~done /\ Stop
-------------------------------------------------------------------------------
TypeOK == st \in {"raw", "ready", "spent"} /\ cached <= g.b /\ zer <= g.b
OnceInOrder == [][(last' # last /\ last'.n > 0 /\ ev # <<>> /\ ev' # <<>> /\ ev'[1] = ev[1]) => last'.pos >= upto]_vars
CutStream == [][(last' # last /\ last'.n > 0) => last'.pos >= cut * g.b]_vars
EntropyInTime == [][(last' # last /\ g.prov /\ st' = "ready") => counter' < thr]_vars
ReseedsBounded == reseed <= MaxReseed + 1
ZeroesOnlyHandedOut == zer + cached <= g.b
MCView == <<g, st, fills - cut, cached, zer, counter, reseed, thr, upto - cut * g.b>>
MCBound == fills <= 9
Toy(k, p) == [n |-> k, kind |-> k, b |-> 3, prov |-> p, pn |-> 1, keys |-> {1}, bad |-> {}, ivs |-> {0}, badivs |-> {}, infos |-> {0}, upds |-> {1}, badupds |-> {0}, thrs |-> {4, 9}, pars |-> {}]
MCGens == {Toy(k, p) : k \in {"bcg", "csg", "hcg"}, p \in BOOLEAN}

Par(d, f) == [on |-> TRUE, size |-> d * 32 * 8 * f, degree |-> d]
Off == [on |-> FALSE, size |-> 0, degree |-> 0]
X(n, kind, b, prov, pn, keys, bad, ivs, badivs, infos, upds, badupds, pars) ==
   [n |-> n, kind |-> kind, b |-> b, prov |-> prov, pn |-> pn, keys |-> keys, bad |-> bad, ivs |-> ivs, badivs |-> badivs, infos |-> infos,
    upds |-> upds, badupds |-> badupds, thrs |-> IF prov THEN {1, b, 5 * b + 2, DefThr} ELSE {1, DefThr}, pars |-> pars]
AllGens == UNION {{
   X("BCG", "bcg", 32, p, 32, {32, 64, 128}, {16, 31, 33, 0}, {32}, {0, 16, 31, 33}, {0, 16, 21}, {32, 64, 128}, IF p THEN {15} ELSE {15, 33}, {Off, Par(2, 1), Par(4, 1), Par(8, 2)}),
   X("CSG128", "csg", 168, p, 16, {16, 32, 167, 168, 169, 400}, {15, 0}, {0, 8, 16, 161, 163, 164, 200, 340}, {}, {0, 5, 158, 161, 162, 163, 164, 165, 200, 340}, {16, 167, 168, 400}, {15}, {}),
   X("CSG256", "csg", 136, p, 32, {16, 32, 135, 136, 137, 300}, {15, 0}, {0, 8, 32, 129, 131, 132, 200, 300}, {}, {0, 5, 126, 129, 130, 131, 132, 133, 200, 300}, {16, 135, 136, 300}, {15}, {}),
   X("CSG512", "csg", 72, p, 64, {16, 64, 71, 72, 73, 200}, {15, 0}, {0, 8, 64, 65, 67, 68, 100, 150}, {}, {0, 5, 62, 65, 66, 67, 68, 69, 100, 150}, {16, 71, 72, 200}, {15}, {}),
   X("HCG256", "hcg", 32, p, 32, {16, 32, 64, 65, 150}, {15, 0}, {0, 4, 8, 12}, {}, {0, 8, 50}, {16, 32, 64, 65, 200}, {15}, {}),
   X("HCG512", "hcg", 64, p, 64, {16, 64, 128, 129, 300}, {15, 0}, {0, 4, 8, 12}, {}, {0, 40, 50}, {32, 64, 128, 129, 300}, {31}, {}) } : p \in BOOLEAN}
PlainGens == {x \in AllGens : ~x.prov}
CsgSweep == {x \in AllGens : x.n = "CSG256" \/ x.kind # "csg"}
Emit == done => PrintT(<<"BEH", ToJson([g |-> g, h |-> hist])>>)
=============================================================================
