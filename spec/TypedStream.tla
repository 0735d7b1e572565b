------------------------------ MODULE TypedStream ------------------------------
(* StreamWriter and StreamReader: integers and arrays of integers laid out in   *)
(* little-endian order one after the other.  The writer's array is grown to     *)
(* hold what is written, never shrunk, and written in place from the front; the *)
(* stream made of it ends where the writing ended.  A reader starts in front,   *)
(* takes what is asked and moves by it; an integer or a number of bytes that is *)
(* not there is refused; an array gets the whole elements that are there.       *)
(* Invariants: what is read back in the order of writing is what was written    *)
(* (Inverse), and nothing beyond the end is ever handed out (Bounded).          *)
EXTENDS Runs, FiniteSets, TLC, Json

CONSTANTS Kinds, Counts, Steps, Gen
VARIABLES k, wbuf, wpos, items, phase, rdata, rpos, given, hist, done
vars == <<k, wbuf, wpos, items, phase, rdata, rpos, given, hist, done>>

Init == /\ k \in Kinds /\ wpos = 0 /\ items = <<>> /\ phase = "write" /\ rdata = <<>> /\ rpos = 0 /\ given = <<>> /\ hist = <<>> /\ done = FALSE
        /\ wbuf = Run(IF k.how = "room" THEN 0 ELSE 1000, 0, k.n)
Log(e) == hist' = Append(hist, e)
Id == Len(hist) + 1
Put(e, bytes) == /\ phase = "write" /\ wbuf' = Overlay(wbuf, wpos, Run(Id, 0, bytes)) /\ wpos' = wpos + bytes
                 /\ items' = (IF bytes = 0 THEN items ELSE Append(items, [s |-> Id, o |-> 0, n |-> bytes]))
                 /\ Log(e @@ [wpos |-> wpos', len |-> Total(wbuf')]) /\ UNCHANGED <<k, phase, rdata, rpos, given>>
WInt(t, w) == Put([op |-> "wint", t |-> t, w |-> w], w)
WVec(w, n) == Put([op |-> "wvec", w |-> w, n |-> n], w * n)
WArr(w, n, off, sec) == Put([op |-> "warr", w |-> w, n |-> n, off |-> off, sec |-> sec], w * n)
Whole == /\ phase = "write" /\ Log([op |-> "whole", runs |-> wbuf]) /\ UNCHANGED <<k, wbuf, wpos, items, phase, rdata, rpos, given>>
\* the stream holds what was written so far, and so does the writer afterwards
Turn == /\ phase = "write" /\ phase' = "read" /\ wbuf' = Upto(wbuf, wpos) /\ rdata' = Upto(wbuf, wpos) /\ rpos' = 0 /\ given' = <<>>
        /\ Log([op |-> "turn", runs |-> rdata']) /\ UNCHANGED <<k, wpos, items>>
Left == Total(rdata) - rpos
Get(e, bytes) == /\ phase = "read" /\ rpos' = rpos + bytes /\ given' = given \o Slice(rdata, rpos, bytes)
                 /\ Log(e @@ [runs |-> Slice(rdata, rpos, bytes), rpos |-> rpos', len |-> Total(rdata)]) /\ UNCHANGED <<k, wbuf, wpos, items, phase, rdata>>
Refuse(e) == phase = "read" /\ Log(e @@ [refused |-> TRUE]) /\ UNCHANGED <<k, wbuf, wpos, items, phase, rdata, rpos, given>>
RInt(t, w) == IF w <= Left THEN Get([op |-> "rint", t |-> t, w |-> w], w) ELSE Refuse([op |-> "rint", t |-> t, w |-> w])
RBytes(n) == IF n <= Left THEN Get([op |-> "rbytes", n |-> n], n) ELSE Refuse([op |-> "rbytes", n |-> n])
RArr(w, n, off, sec) == Get([op |-> "rarr", w |-> w, n |-> n, off |-> off, sec |-> sec], w * Min(n, Left \div w))
Resume == phase = "read" /\ phase' = "write" /\ Log([op |-> "resume", wpos |-> wpos, len |-> Total(wbuf)]) /\ UNCHANGED <<k, wbuf, wpos, items, rdata, rpos, given>>

Ws == {1, 2, 4, 8}
Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \E w \in Rand(Ws), v \in Rand(Ws), n \in Rand(Counts), m \in Rand(Counts), off \in Rand({0, 1, 3}), sec \in Rand(BOOLEAN), t \in Rand({"u", "i"}) :
             \/ WInt(t, w) \/ WInt("u", v) \/ WVec(w, n) \/ WArr(v, m, off, sec) \/ Whole \/ (Len(hist) > 1 /\ Turn)
             \/ RInt(t, w) \/ RInt("u", v) \/ RBytes(n) \/ RBytes(Left) \/ RBytes(Left + 1) \/ RArr(v, m, off, sec) \/ Resume
Last == Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<k, wbuf, wpos, items, phase, rdata, rpos, given, hist>>
Next == Step \/ (Gen # "no" /\ Last)
MCNext == /\ done' = FALSE
          /\ \/ \E w \in {1, 2, 4} : WInt("u", w) \/ RInt("u", w) \/ \E n \in Counts : WVec(w, n) \/ RArr(w, n, 0, FALSE)
             \/ Whole \/ Turn \/ Resume \/ \E n \in Counts : RBytes(n)
MCSpec == Init /\ [][MCNext]_vars
\* every pair of writes, then every pair of reads
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ Len(hist) = 0 /\ (\E w \in Ws : WInt("i", w) \/ \E n \in Counts : WVec(w, n))
          \/ Len(hist) = 1 /\ (\E w \in Ws : WInt("u", w) \/ \E n \in Counts : WArr(w, n, 2, n = 1))
          \/ Len(hist) = 2 /\ Turn
          \/ Len(hist) = 3 /\ (\E w \in Ws : RInt("u", w) \/ \E n \in Counts : RBytes(n) \/ RArr(w, n, 2, n = 1))
    \/ Last
-------------------------------------------------------------------------------
TypeOK == wpos <= Total(wbuf) /\ rpos <= Total(rdata)
Inverse == Slice(wbuf, 0, wpos) = items
InverseRead == phase = "read" => (Total(given) = rpos /\ \A i \in 0 .. rpos - 1 : Slice(given, i, 1) = Slice(items, i, 1))
Bounded == phase = "read" => Total(rdata) <= wpos
MCBound == Len(hist) <= 4 /\ wpos <= 9
MCView == <<k, wbuf, wpos, items, phase, rdata, rpos, given, Len(hist)>>
K(how, n) == [how |-> how, n |-> n]
MCKinds == {K("room", 0), K("room", 3), K("array", 5)}
GenKinds == {K("room", 0), K("room", 3), K("room", 64), K("array", 0), K("array", 9), K("stream", 21), K("stream", 100)}
Emit == done => PrintT(<<"BEH", ToJson([k |-> k, h |-> hist, buf |-> wbuf, items |-> items])>>)
=============================================================================
