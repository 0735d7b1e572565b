---------------------------------- MODULE Mac ----------------------------------
(* A message authentication code generator as a state machine.                  *)
(*                                                                              *)
(* The value of a tag is the uninterpreted term                                 *)
(*     Tag(algorithm, key, iv, info, output length, msg)                        *)
(* where msg is everything absorbed since the key was loaded (or, for HMAC,     *)
(* since the last tag): no byte lost, none counted twice, whatever the split.   *)
(* buf/cnt mirror the block buffer of the implementation; lazy generators hold  *)
(* a complete last block back until more input arrives.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Macs,    \* profiles [n, b, t, keys, badkeys, ivs, badivs, infos, vlen, lazy, again]
          Steps, Gen
VARIABLES mac, st, key, msg, len, buf, cnt, hist, done
vars == <<mac, st, key, msg, len, buf, cnt, hist, done>>

NoKey == [k |-> 0, iv |-> 0, info |-> 0, s |-> 0]
Lens == LET B == mac.b IN {0, 1, B - 1, B, B + 1, 2 * B, 3 * B + 5, 8 * B - 1, 8 * B, 8 * B + 3}
                     \cup {n \in {IF B > d THEN B - d ELSE 0 : d \in 2 .. 5} : n > 0}
InOffs == {0, 1, 13}

Init == /\ mac \in Macs /\ st = "raw" /\ key = NoKey /\ msg = <<>> /\ len = 0 /\ buf = 0 /\ cnt = 0
        /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Clear == msg' = <<>> /\ len' = 0 /\ buf' = 0 /\ cnt' = 0

\* loading a key starts a new message, whatever the generator did before
Load(k, iv, info) ==
    /\ st' = "ready" /\ key' = [k |-> k, iv |-> iv, info |-> info, s |-> Len(hist) + 1] /\ Clear
    /\ Log([op |-> "init", key |-> key', exp |-> "ok"]) /\ UNCHANGED mac
\* an unusable key is refused; a loaded key and message survive
LoadBad(k, iv) ==
    /\ Log([op |-> "init", key |-> [k |-> k, iv |-> iv, info |-> 0, s |-> Len(hist) + 1], exp |-> "throw"])
    /\ UNCHANGED <<mac, st, key, msg, len, buf, cnt>>

Absorb(n) == LET t == buf + n IN
    /\ len' = len + n
    /\ IF mac.lazy /\ t > 0 /\ t % mac.b = 0 /\ n > 0
       THEN buf' = mac.b /\ cnt' = cnt + t \div mac.b - 1
       ELSE IF n = 0 THEN UNCHANGED <<buf, cnt>> ELSE buf' = t % mac.b /\ cnt' = cnt + t \div mac.b
Update(n, off) ==
    /\ st = "ready" /\ msg' = Append(msg, [s |-> Len(hist) + 1, n |-> n]) /\ Absorb(n)
    /\ Log([op |-> "upd", s |-> Len(hist) + 1, n |-> n, off |-> off, exp |-> "ok"])
    /\ UNCHANGED <<mac, st, key>>
\* claiming more input than there is, or input before a key, is refused
UpdateBad(n, off) ==
    /\ st # "spent"
    /\ Log([op |-> "upd", s |-> Len(hist) + 1, n |-> n, off |-> off, short |-> (st = "ready"), exp |-> "throw"])
    /\ UNCHANGED <<mac, st, key, msg, len, buf, cnt>>
OutLen(extra) == IF mac.vlen THEN mac.t + extra ELSE mac.t
Finish == Clear /\ st' = (IF mac.again THEN "ready" ELSE "spent") /\ UNCHANGED <<mac, key>>
Finalize(off, extra, sec) ==
    /\ st = "ready"
    /\ Log([op |-> "fin", size |-> mac.t + off + extra, off |-> off, sec |-> sec, exp |-> "ok",
            out |-> OutLen(extra), key |-> key, term |-> msg])
    /\ Finish
FinalizeBad(off, sec) ==
    /\ st # "spent"
    /\ Log([op |-> "fin", size |-> mac.t + off - (IF st = "ready" THEN 1 ELSE 0), off |-> off, sec |-> sec, exp |-> "throw"])
    /\ UNCHANGED <<mac, st, key, msg, len, buf, cnt>>
Compute(n) ==
    /\ st = "ready"
    /\ Log([op |-> "comp", s |-> Len(hist) + 1, n |-> n, exp |-> "ok", size |-> mac.t, out |-> mac.t, key |-> key,
            term |-> Append(msg, [s |-> Len(hist) + 1, n |-> n])])
    /\ Finish
ComputeBad(n) ==
    /\ st # "spent"
    /\ Log([op |-> "comp", s |-> Len(hist) + 1, n |-> n, exp |-> "throw", size |-> mac.t - (IF st = "ready" THEN 1 ELSE 0)])
    /\ UNCHANGED <<mac, st, key, msg, len, buf, cnt>>
Reset == Log([op |-> "reset"]) /\ Clear /\ st' = "raw" /\ key' = NoKey /\ UNCHANGED mac
Query == Log([op |-> "isinit", v |-> (st = "ready")]) /\ st # "spent" /\ UNCHANGED <<mac, st, key, msg, len, buf, cnt>>

Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E k \in mac.keys, iv \in mac.ivs, i \in mac.infos : Load(k, iv, i)
           \/ \E k \in mac.badkeys, iv \in mac.ivs : LoadBad(k, iv)
           \/ \E k \in mac.keys, iv \in mac.badivs : LoadBad(k, iv)
           \/ \E n \in Lens, o \in InOffs : Update(n, o)
           \/ \E n \in {1, mac.b}, o \in InOffs : UpdateBad(n, o)
           \/ \E o \in {0, 5}, x \in {0, 3, mac.t} : Finalize(o, x, Len(hist) % 2 = 0)
           \/ \E o \in {0, 5} : FinalizeBad(o, FALSE)
           \/ \E n \in Lens : Compute(n)
           \/ ComputeBad(3)
           \/ Reset
           \/ Query
Stop == done' = TRUE /\ UNCHANGED <<mac, st, key, msg, len, buf, cnt, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
Spec == Init /\ [][Next]_vars

\* Exhaustive sweep: every message length up to two blocks, as one piece and in two
SweepKey(k, iv, i) == TRUE
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E k \in mac.keys : Load(k, CHOOSE v \in mac.ivs : \A w \in mac.ivs : v >= w, CHOOSE v \in mac.infos : \A w \in mac.infos : v >= w)
          \/ Len(hist) = 1 /\ \E n \in 0 .. mac.b + 17 : Update(n, 0)
          \/ Len(hist) = 2 /\ \E n \in {0, 1, mac.b - 1} : Update(n, 1)
          \/ Len(hist) = 3 /\ Finalize(0, 0, FALSE)
    \/ Len(hist) = 4 /\ ~done /\ Stop
-------------------------------------------------------------------------------
RECURSIVE Total(_)
Total(m) == IF m = <<>> THEN 0 ELSE Head(m).n + Total(Tail(m))
TypeOK == st \in {"raw", "ready", "spent"} /\ buf \in 0 .. mac.b
NothingLost == len = Total(msg) /\ cnt * mac.b + buf = len
LazyHoldsLast == mac.lazy /\ len > 0 => buf > 0
EagerDrains == ~mac.lazy => buf < mac.b
NoTagWithoutKey == st = "ready" => key # NoKey
ResetForgets == st = "raw" => key = NoKey /\ msg = <<>> /\ len = 0
\* a refused call changes nothing: every step either logs a success or leaves the state
RefusalsAreInert == [][(Gen = "no" /\ st' = st /\ key' = key /\ msg' = msg) => (len' = len /\ buf' = buf /\ cnt' = cnt)]_vars

MCBound == len <= 20 /\ Len(msg) <= 3
MCView == <<mac, st, [key EXCEPT !.s = 0], [i \in 1 .. Len(msg) |-> msg[i].n], len, buf, cnt>>
MCMacs == { [n |-> "eager", b |-> 3, t |-> 2, keys |-> {1, 2}, badkeys |-> {0}, ivs |-> {0, 1}, badivs |-> {}, infos |-> {0}, vlen |-> TRUE, lazy |-> FALSE, again |-> FALSE],
            [n |-> "lazy", b |-> 4, t |-> 2, keys |-> {1}, badkeys |-> {}, ivs |-> {1}, badivs |-> {0}, infos |-> {0, 1}, vlen |-> FALSE, lazy |-> TRUE, again |-> FALSE],
            [n |-> "again", b |-> 5, t |-> 3, keys |-> {1}, badkeys |-> {0}, ivs |-> {0}, badivs |-> {}, infos |-> {0}, vlen |-> FALSE, lazy |-> FALSE, again |-> TRUE] }

P(n, b, t, keys, badkeys, ivs, badivs, infos, vlen, lazy, again) ==
  [n |-> n, b |-> b, t |-> t, keys |-> keys, badkeys |-> badkeys, ivs |-> ivs, badivs |-> badivs, infos |-> infos, vlen |-> vlen, lazy |-> lazy, again |-> again]
AllMacs == {
  P("HMACSHA2256", 64, 32, {8, 32, 63, 64, 65, 200}, {7}, {0}, {}, {0}, FALSE, FALSE, TRUE),
  P("HMACSHA2512", 128, 64, {8, 64, 127, 128, 129, 300}, {7}, {0}, {}, {0}, FALSE, FALSE, TRUE),
  P("KMAC128", 168, 16, {16, 32, 165, 200}, {15}, {0, 4, 16, 158, 163, 164, 165, 180}, {3}, {0, 3, 20, 158, 162, 163, 164, 165, 170}, TRUE, FALSE, FALSE),
  P("KMAC256", 136, 32, {16, 32, 133, 200}, {15}, {0, 4, 32, 126, 130, 131, 132, 133, 150}, {3}, {0, 3, 20, 126, 130, 131, 132, 133, 140}, TRUE, FALSE, FALSE),
  P("KMAC512", 72, 64, {16, 64, 69, 200}, {15}, {0, 4, 62, 64, 66, 67, 68, 69, 80, 150}, {3}, {0, 3, 20, 64, 66, 67, 68, 69, 80}, TRUE, FALSE, FALSE),
  P("CMAC", 16, 16, {16, 24, 32}, {15}, {0}, {}, {0}, FALSE, TRUE, FALSE),
  P("CMACRHXH256", 16, 16, {32, 64}, {15}, {0}, {}, {0, 7}, FALSE, TRUE, FALSE),
  P("CMACRHXS512", 16, 16, {32, 64}, {15}, {0}, {}, {0, 7}, FALSE, TRUE, FALSE),
  P("GMAC", 16, 16, {16, 24, 32}, {15}, {12, 13, 16, 17, 32, 50}, {11, 0}, {0}, FALSE, TRUE, FALSE),
  P("GMACRHXH512", 16, 16, {32, 64}, {15}, {12, 16}, {11}, {0, 5}, FALSE, TRUE, FALSE),
  P("GMACRHXS256", 16, 16, {32, 64}, {15}, {12, 16}, {11}, {0, 5}, FALSE, TRUE, FALSE),
  P("Poly1305", 16, 16, {32}, {31}, {0}, {}, {0}, FALSE, FALSE, FALSE),
  P("KPA128", 1344, 16, {16}, {15}, {0, 3, 4, 165, 200}, {}, {0}, TRUE, FALSE, FALSE),
  P("KPA256", 1088, 32, {32}, {15}, {0, 3, 4, 133, 200}, {}, {0}, TRUE, FALSE, FALSE),
  P("KPA512", 576, 64, {64}, {15}, {0, 3, 4, 69, 200}, {}, {0}, TRUE, FALSE, FALSE) }
SweepMacs == {m \in AllMacs : m.b <= 168}

\* Poly1305 at the edges of its field: the accumulator ends at p + d, or with a limb boundary 2^b + d, for a multiplier and pad of each shape
EdgeNext ==
    \/ /\ done' = FALSE /\ mac.n = "Poly1305" /\ Len(hist) = 0
       /\ \E r \in 0 .. 5, sk \in 0 .. 2, nb \in 1 .. 5, split \in BOOLEAN :
          \E x \in {[b |-> 0, d |-> d] : d \in {0 - 7, 0 - 6, 0 - 5, 0 - 4, 0 - 3, 0 - 2, 0 - 1, 0, 1, 2, 3, 4, 5, 6}} \cup {[b |-> b, d |-> d] : b \in {26, 44, 52, 64, 78, 88, 104, 128, 129}, d \in {0 - 1, 0}} :
            /\ key' = [k |-> 32, iv |-> 0, info |-> 0, s |-> 1] /\ st' = "ready" /\ UNCHANGED <<mac, msg, len, buf, cnt>>
            /\ hist' = <<[op |-> "edge", r |-> r, sk |-> sk, nb |-> nb, split |-> split, at |-> x]>>
    \/ Len(hist) = 1 /\ ~done /\ Stop
OnlyPoly == {m \in AllMacs : m.n = "Poly1305"}
Emit == done => PrintT(<<"BEH", ToJson([mac |-> mac, h |-> hist])>>)
=============================================================================
