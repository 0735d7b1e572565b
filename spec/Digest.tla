------------------------------- MODULE Digest -------------------------------
(* A hash object as a state machine.                                        *)
(*                                                                          *)
(* Abstract state: the bytes absorbed since the object was constructed,     *)
(* finalized or reset (`msg`, a sequence of pieces; a piece is a run of     *)
(* bytes of some source, or an integer in little-endian layout).            *)
(* Implementation-shaped state: `buf`, the number of buffered bytes, and    *)
(* `cnt`, the number of whole blocks each leaf has compressed.  The         *)
(* invariants tie the two together: nothing is lost, nothing is processed   *)
(* twice, every byte reaches exactly one leaf.                              *)
(*                                                                          *)
(* The value of a digest is the uninterpreted term                          *)
(*     H(algorithm, mode, msg)                                              *)
(* evaluated outside by an independent implementation.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Algs,        \* set of profiles [n, b, d]
          Modes,       \* subset of {"seq", "tree", "2", "4", "8"}: fan-out of the tree
          Steps,       \* length of a behaviour
          Gen          \* "no", "walk" or "sweep"

VARIABLES alg, mode, msg, len, buf, cnt, hist,
          done        \* the behaviour is complete: printed for replay
vars == <<alg, mode, msg, len, buf, cnt, hist, done>>

Fan == CASE mode = "seq" -> 1 [] mode = "2" -> 2 [] mode = "4" -> 4 [] mode = "8" -> 8
         [] mode = "tree" -> IF alg.n \in {"Blake512"} THEN 4 ELSE 8
Span == Fan * alg.b       \* one block for every leaf

\* message lengths around the boundaries of blocks, of one row of leaves, and beyond
Lens == LET B == alg.b S == Span IN
        {0, 1, 2, B - 1, B, B + 1, 2 * B, 3 * B + 5, S - 1, S, S + 1, 2 * S - 1, 2 * S, 2 * S + 3, 3 * S - B + 1, 3 * S + 1, 5 * S + 7}
InOffs == {0, 1, 13}
Ints == {8, 32, 64}

Init == /\ alg \in Algs /\ mode \in Modes
        /\ msg = <<>> /\ len = 0 /\ buf = 0 /\ cnt = 0 /\ hist = <<>> /\ done = FALSE

Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)

\* Absorbing n bytes: whole rows of blocks are compressed as soon as they are complete, the rest is buffered.
Absorb(n) == LET t == buf + n IN /\ len' = len + n
                                 /\ buf' = t % Span
                                 /\ cnt' = cnt + t \div Span

Update(n, off) ==
    /\ msg' = Append(msg, [k |-> "b", s |-> Len(hist) + 1, n |-> n])
    /\ Absorb(n)
    /\ Log([op |-> "upd", s |-> Len(hist) + 1, n |-> n, off |-> off])
    /\ UNCHANGED <<alg, mode>>

UpdateInt(w) ==
    /\ msg' = Append(msg, [k |-> "i", s |-> Len(hist) + 1, n |-> w \div 8])
    /\ Absorb(w \div 8)
    /\ Log([op |-> "int", s |-> Len(hist) + 1, w |-> w])
    /\ UNCHANGED <<alg, mode>>

Clear == msg' = <<>> /\ len' = 0 /\ buf' = 0 /\ cnt' = 0 /\ UNCHANGED <<alg, mode>>

Finalize(off, extra) ==
    /\ Log([op |-> "fin", size |-> alg.d + off + extra, off |-> off, exp |-> "ok", term |-> msg])
    /\ Clear

\* an output buffer that cannot hold the digest is refused and nothing changes
FinalizeShort(off) ==
    /\ Log([op |-> "fin", size |-> alg.d + off - 1, off |-> off, exp |-> "throw"])
    /\ UNCHANGED <<alg, mode, msg, len, buf, cnt>>

\* one-shot computation: continues the absorbed message, then finalizes
Compute(n) ==
    /\ Log([op |-> "comp", s |-> Len(hist) + 1, n |-> n, exp |-> "ok",
            term |-> Append(msg, [k |-> "b", s |-> Len(hist) + 1, n |-> n])])
    /\ Clear

Reset == Log([op |-> "reset"]) /\ Clear

Stop == ~done /\ done' = TRUE /\ UNCHANGED <<alg, mode, msg, len, buf, cnt, hist>>

Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E n \in Lens, o \in InOffs : Update(n, o)
           \/ \E w \in Ints : UpdateInt(w)
           \/ \E o \in {0, 5}, x \in {0, 3} : Finalize(o, x)
           \/ \E o \in {0, 5} : FinalizeShort(o)
           \/ \E n \in Lens : Compute(n)
           \/ Reset

Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ Stop)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Exhaustive sweep: every length up to three rows, as one update and split in two
SweepMax == 2 * alg.b + 9
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ \E n \in 0 .. SweepMax : Update(n, 0)
          \/ Len(hist) = 1 /\ \E n \in {0, 1, alg.b - 1, alg.b} : Update(n, 1)
          \/ Len(hist) = 2 /\ Finalize(0, 0)
    \/ Len(hist) = 3 /\ Stop

-----------------------------------------------------------------------------
RECURSIVE Total(_)
Total(m) == IF m = <<>> THEN 0 ELSE Head(m).n + Total(Tail(m))

TypeOK == buf \in 0 .. Span - 1
NothingLost == len = Total(msg) /\ cnt * Span + buf = len
\* the leaf that byte i of the message belongs to: exactly one, and the leaves partition the message
Leaf(i) == (i \div alg.b) % Fan
LeafPartition == \A i \in 0 .. len - 1 : Leaf(i) \in 0 .. Fan - 1
LeafBalance == LET n(l) == Cardinality({i \in 0 .. len - 1 : Leaf(i) = l})
               IN \A l \in 0 .. Fan - 1 : n(l) \in cnt * alg.b .. (cnt + 1) * alg.b
\* finalizing or resetting returns the object to its initial state
ResetsToInitial == [][(msg' = <<>> /\ msg # <<>>) =>
                        (len' = 0 /\ buf' = 0 /\ cnt' = 0)]_vars

MCBound == len <= 24 /\ Len(msg) <= 3
MCView == <<alg, mode, msg, len, buf, cnt>>
\* small instance for the exhaustive check
MCAlgs == {[n |-> "toy", b |-> 2, d |-> 3], [n |-> "toy3", b |-> 3, d |-> 1]}
MCModes == {"seq", "2", "4"}
AllDigests == {
  [n |-> "SHA2256",   b |-> 64,  d |-> 32],
  [n |-> "SHA2512",   b |-> 128, d |-> 64],
  [n |-> "SHA3256",   b |-> 136, d |-> 32],
  [n |-> "SHA3512",   b |-> 72,  d |-> 64],
  [n |-> "Blake256",  b |-> 64,  d |-> 32],
  [n |-> "Blake512",  b |-> 128, d |-> 64],
  [n |-> "Skein256",  b |-> 32,  d |-> 32],
  [n |-> "Skein512",  b |-> 64,  d |-> 64],
  [n |-> "Skein1024", b |-> 128, d |-> 128] }
TreeAlgs == AllDigests
AllModes == {"seq", "tree", "2", "4"}
SeqOnly == {"seq"}

Emit == done =>
            PrintT(<<"BEH", ToJson([alg |-> alg, mode |-> mode, h |-> hist, msg |-> msg])>>)
=============================================================================
