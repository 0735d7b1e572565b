------------------------------ MODULE BlockCipher ------------------------------
(* A keyed block permutation as a state machine.                                *)
(*                                                                              *)
(* A data slot is [src, n, ops]: n blocks of source data to which the sequence  *)
(* ops of (direction, key) steps was applied.  Applying the inverse direction   *)
(* of the key on top cancels: that is the permutation law of the cipher, and    *)
(* the value of a slot is always the value of its normal form.  A wide          *)
(* transform of n blocks is n single-block transforms.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Ciphers,   \* profiles [n, ext, keys, bad, infos]
          Steps, Gen, Slots
VARIABLES cph, st, key, slot, hist, done
vars == <<cph, st, key, slot, hist, done>>

Widths == {1, 2, 4, 8, 16}
NoKey == [k |-> 0, info |-> 0, s |-> 0]
Empty == [src |-> 0, n |-> 0, ops |-> <<>>]

\* the documented number of rounds
Rounds(c, k) == CASE c.fam = "rhx" /\ ~c.ext -> k \div 4 + 6
                  [] c.fam = "rhx" /\ c.ext  -> CASE k = 32 -> 22 [] k = 64 -> 30 [] OTHER -> 38
                  [] c.fam = "shx" /\ ~c.ext -> 32
                  [] OTHER -> CASE k = 32 -> 40 [] k = 64 -> 48 [] OTHER -> 64

Init == /\ cph \in Ciphers /\ st = "raw" /\ key = NoKey /\ slot = [i \in Slots |-> Empty] /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)

Load(d, k, i) ==
    /\ st' = d /\ key' = [k |-> k, info |-> i, s |-> IF Gen = "no" THEN 0 ELSE Len(hist) + 1]
    /\ Log([op |-> "init", d |-> d, key |-> key', exp |-> "ok", rounds |-> Rounds(cph, k)])
    /\ UNCHANGED <<cph, slot>>
\* the other direction under the same key: what a peer does
Flip ==
    /\ st # "raw" /\ st' = (IF st = "enc" THEN "dec" ELSE "enc")
    /\ Log([op |-> "init", d |-> st', key |-> key, exp |-> "ok", rounds |-> Rounds(cph, key.k)])
    /\ UNCHANGED <<cph, key, slot>>
LoadBad(d, k) ==
    /\ Log([op |-> "init", d |-> d, key |-> [k |-> k, info |-> 0, s |-> Len(hist) + 1], exp |-> "throw"])
    /\ UNCHANGED <<cph, st, key, slot>>
Fresh(i, n) ==
    /\ slot' = [slot EXCEPT ![i] = [src |-> IF Gen = "no" THEN i ELSE Len(hist) + 1, n |-> n, ops |-> <<>>]]
    /\ Log([op |-> "data", i |-> i, n |-> n, s |-> Len(hist) + 1]) /\ UNCHANGED <<cph, st, key>>

Push(ops, d) == LET l == Len(ops) IN
    IF l > 0 /\ ops[l].key = key /\ ops[l].d # d THEN SubSeq(ops, 1, l - 1) ELSE Append(ops, [d |-> d, key |-> key])
\* how: "tr" the width's transform, "blk" the single block call of the direction, "ser" block by block
Apply(i, how, io, oo) ==
    /\ st # "raw" /\ slot[i].n > 0
    /\ how = "blk" => slot[i].n = 1
    /\ slot' = [slot EXCEPT ![i].ops = Push(@, st)]
    /\ Log([op |-> "tr", i |-> i, how |-> how, d |-> st, n |-> slot[i].n, io |-> io, oo |-> oo, term |-> slot'[i]])
    /\ UNCHANGED <<cph, st, key>>

Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E d \in {"enc", "dec"}, k \in cph.keys, i \in cph.infos : Load(d, k, i)
           \/ Flip
           \/ \E d \in {"enc", "dec"}, k \in cph.bad : LoadBad(d, k)
           \/ \E i \in Slots, n \in Widths : Fresh(i, n)
           \/ \E i \in Slots, how \in {"tr", "blk", "ser"}, io \in {0, 7}, oo \in {0, 5} : Apply(i, how, io, oo)
Stop == done' = TRUE /\ UNCHANGED <<cph, st, key, slot, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
Spec == Init /\ [][Next]_vars

\* Exhaustive sweep: every cipher, key size, distribution code, width: there, back, and the other way round
S1 == CHOOSE i \in Slots : \A j \in Slots : i <= j
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E d \in {"enc", "dec"}, k \in cph.keys, i \in cph.infos : Load(d, k, i)
          \/ Len(hist) = 1 /\ \E n \in Widths : Fresh(S1, n)
          \/ Len(hist) = 2 /\ Apply(S1, "tr", 7, 5)
          \/ Len(hist) = 3 /\ Flip
          \/ Len(hist) = 4 /\ \E how \in {"tr", "blk"} : (how = "blk" <=> slot[S1].n = 1) /\ Apply(S1, how, 0, 0)
    \/ Len(hist) = 5 /\ ~done /\ Stop
-------------------------------------------------------------------------------
RECURSIVE Val(_, _)
\* toy interpretation: keyed permutations of 0..4
E(k, x) == (x * 3 + k.k + k.info + 1) % 5
D(k, y) == ((y + 20 - k.k - k.info - 1) * 2) % 5
Val(x, ops) == IF ops = <<>> THEN x
               ELSE Val(IF Head(ops).d = "enc" THEN E(Head(ops).key, x) ELSE D(Head(ops).key, x), Tail(ops))
Interp(i, x) == Val(x, slot[i].ops)
TypeOK == st \in {"raw", "enc", "dec"} /\ (st = "raw" <=> key = NoKey)
\* every reachable composition is a permutation of the blocks
Permutation == \A i \in Slots : Cardinality({Interp(i, x) : x \in 0 .. 4}) = 5
\* encrypting and decrypting again (either order, same key) gives the input back
Inverse == [][\A i \in Slots : Len(slot'[i].ops) < Len(slot[i].ops) /\ slot'[i].src = slot[i].src /\ slot'[i].n = slot[i].n /\ slot'[i].ops # <<>>
                 => \A x \in 0 .. 4 : Val(Val(Val(x, slot'[i].ops), <<slot[i].ops[Len(slot[i].ops)]>>),
                         <<[d |-> st, key |-> key]>>) = Val(x, slot'[i].ops)]_vars
MCWidths == {1, 2}
MCBound == \A i \in Slots : Len(slot[i].ops) <= 3
MCCiphers == {[n |-> "toy", fam |-> "rhx", ext |-> FALSE, keys |-> {1, 2}, bad |-> {3}, infos |-> {0, 1}]}
P(n, fam, ext, keys, bad, infos) == [n |-> n, fam |-> fam, ext |-> ext, keys |-> keys, bad |-> bad, infos |-> infos]
AllCiphers == {
  P("AES", "rhx", FALSE, {16, 24, 32}, {0, 15, 17, 64}, {0}),
  P("RHXH256", "rhx", TRUE, {32, 64, 128}, {0, 31, 33}, {0, 1, 13, 40}),
  P("RHXH512", "rhx", TRUE, {32, 64, 128}, {0, 31, 65}, {0, 1, 37, 90}),
  P("RHXS256", "rhx", TRUE, {32, 64, 128}, {0, 31, 127}, {0, 1, 118, 119, 120, 121, 122, 123, 124, 127, 140}),
  P("RHXS512", "rhx", TRUE, {32, 64, 128}, {0, 31, 129}, {0, 1, 54, 55, 56, 57, 58, 59, 60, 63, 80}),
  P("Serpent", "shx", FALSE, {16, 24, 32}, {0, 15, 33}, {0}),
  P("SHXH256", "shx", TRUE, {32, 64, 128}, {0, 31, 33}, {0, 13, 40}),
  P("SHXH512", "shx", TRUE, {32, 64, 128}, {0, 31, 65}, {0, 37, 90}),
  P("SHXS256", "shx", TRUE, {32, 64, 128}, {0, 31, 127}, {0, 121, 127, 140}),
  P("SHXS512", "shx", TRUE, {32, 64, 128}, {0, 31, 129}, {0, 57, 63, 80}) }
Emit == done => PrintT(<<"BEH", ToJson([c |-> cph, h |-> hist])>>)
=============================================================================
