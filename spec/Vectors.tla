-------------------------------- MODULE Vectors --------------------------------
(* Secure containers and the operations that carry integers in and out of them. *)
(* A vector is its bytes (runs, see Runs) and whether it is a secure one; w is  *)
(* the width of an element.  Offsets and counts are in elements, lengths of     *)
(* copies and moves in bytes, as documented.  gone: the sources whose bytes     *)
(* were in secure memory that has been given back, and must not be left there.  *)
EXTENDS Runs, FiniteSets, TLC, Json

CONSTANTS Widths, Counts, Steps, Gen
VARIABLES w, vs, hist, done
vars == <<w, vs, hist, done>>

Init == w \in Widths /\ vs = <<>> /\ hist = <<>> /\ done = FALSE
Id == Len(hist) + 1
Log(e) == hist' = Append(hist, e)
N(i) == Total(vs[i].d) \div w
Vec(s, d) == [sec |-> s, d |-> d]
New(s, n) == /\ Len(vs) < 4 /\ vs' = Append(vs, Vec(s, Run(Id, 0, n * w))) /\ Log([op |-> "new", a |-> Len(vs) + 1, sec |-> s, n |-> n * w, after |-> <<Run(Id, 0, n * w)>>])
Set(i, d) == vs' = [vs EXCEPT ![i].d = d]
Set2(i, d, j, e) == vs' = [vs EXCEPT ![i].d = d, ![j].d = e]
One(op, i, n, d) == Set(i, d) /\ Log([op |-> op, a |-> i, n |-> n, held |-> vs[i].d, sec |-> vs[i].sec, after |-> <<d>>])
Resize(i, n) == One("resize", i, n, Upto(Slice(vs[i].d, 0, n * w), n * w))
Push(i, n) == n > 0 /\ One("push", i, n * w, vs[i].d \o Run(Id, 0, n * w))
Clear(i) == vs[i].sec /\ One("clear", i, 0, <<>>)
Turn(op, i, clear) == /\ Len(vs) < 4 /\ vs[i].sec = (op \in {"unlock", "unlockclear"})
                      /\ vs' = Append(IF clear THEN [vs EXCEPT ![i].d = <<>>] ELSE vs, Vec(~vs[i].sec, vs[i].d))
                      /\ Log([op |-> op, a |-> i, b |-> Len(vs) + 1, after |-> <<IF clear THEN <<>> ELSE vs[i].d, vs[i].d>>])
Two(op, i, j, n, d, e) == Set2(i, d, j, e) /\ Log([op |-> op, a |-> i, b |-> j, n |-> n, after |-> <<d, e>>])
Whole(op, i, j) == /\ (op = "insert" => vs[j].sec) /\ (op = "extract" => vs[i].sec)
                   /\ Two(op, i, j, <<>>, vs[i].d, vs[j].d \o vs[i].d)
Ranged(op, i, io, j, oo, n) ==
    /\ (op = "insertr" => vs[j].sec) /\ (op = "extractr" => vs[i].sec) /\ n > 0 /\ io + n <= N(i)
    /\ Two(op, i, j, <<io, oo, n>>, vs[i].d, Overlay(vs[j].d, oo * w, Slice(vs[i].d, io * w, n * w)))
MoveAll(i, j, oo) == /\ (vs[i].sec \/ vs[j].sec) /\ N(i) > 0 /\ oo + N(i) <= N(j)
                     /\ Two("moveall", i, j, <<oo>>, <<>>, Overlay(vs[j].d, oo * w, vs[i].d))
Length(op, i, io, j, oo, n) ==
    /\ (vs[i].sec \/ vs[j].sec) /\ (op = "copy" => vs[i].sec /\ vs[j].sec) /\ n > 0 /\ io + n <= N(i) /\ oo + n <= N(j)
    /\ Two(op, i, j, <<io, oo, n * w>>, IF op = "copy" THEN vs[i].d ELSE Overlay(vs[i].d, io * w, Run(0, 0, n * w)), Overlay(vs[j].d, oo * w, Slice(vs[i].d, io * w, n * w)))

Rand(S) == IF Gen = "walk" THEN {RandomElement(S)} ELSE S
R0(n) == IF Gen = "walk" THEN {RandomElement(0 .. n)} ELSE {0, n}
Step == /\ Len(hist) < Steps /\ UNCHANGED <<w, done>>
        /\ \/ \E s \in Rand(BOOLEAN), n \in Rand(Counts) : New(s, n)
           \/ Len(vs) > 0 /\ \E i \in Rand(1 .. Len(vs)) :
              \/ \E n \in Rand(Counts) : Resize(i, n) \/ Push(i, n)
              \/ (Len(hist) > 5 /\ Clear(i))
              \/ \E op \in Rand({"lock", "unlock", "lockclear", "unlockclear"}) : Turn(op, i, op \in {"lockclear", "unlockclear"})
              \/ \E j \in Rand(1 .. Len(vs)) : i # j /\
                 \/ \E op \in Rand({"insert", "extract"}) : Whole(op, i, j)
                 \/ \E io \in R0(N(i)) : \E n \in (IF Gen = "walk" THEN Rand(0 .. N(i) - io) ELSE {N(i) - io}), oo \in R0(N(j)), past \in Rand({0, 0, 3}), op \in Rand({"insertr", "extractr"}) : Ranged(op, i, io, j, oo + past, n)
                 \/ N(j) >= N(i) /\ \E oo \in R0(N(j) - N(i)) : MoveAll(i, j, oo)
                 \/ \E io \in R0(N(i)), oo \in R0(N(j)) : \E n \in (IF Gen = "walk" THEN Rand(0 .. Min(N(i) - io, N(j) - oo)) ELSE {Min(N(i) - io, N(j) - oo)}), op \in Rand({"copy", "mover"}) : Length(op, i, io, j, oo, n)
Stop == Gen = "walk" /\ Len(hist) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<w, vs, hist>>
Next == Step \/ Stop
Spec == Init /\ [][Next]_vars
-------------------------------------------------------------------------------
\* nothing is made up: every byte is a zero or comes from a source that was put in, at most as many as were
Sources == {i \in 1 .. Len(hist) : hist[i].op \in {"new", "push"}} \cup {0}
Whence == \A i \in 1 .. Len(vs) : \A k \in 1 .. Len(vs[i].d) : vs[i].d[k].s \in Sources /\ vs[i].d[k].n > 0
Whole2 == \A i \in 1 .. Len(vs) : Total(vs[i].d) % w = 0
Emit == done => PrintT(<<"BEH", ToJson([w |-> w, h |-> hist, vs |-> vs])>>)
=============================================================================
