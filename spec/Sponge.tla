-------------------------------- MODULE Sponge --------------------------------
(* The sponge helpers: bytes are absorbed in pieces at a position of the state *)
(* that the caller carries, the last piece closes the message, and output is   *)
(* squeezed in blocks or in part of one.                                       *)
(* The state is the term <<blocks absorbed so far, bytes of the open block,    *)
(* whether closed, permutations since>>.  Laws: however a message is cut, the  *)
(* state is that of the whole (Piecewise); the position is the number of bytes *)
(* of the open block (Position).                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS R, W, MaxLen, Steps, Gen
VARIABLES rate, blocks, open, closed, out, msg, n, hist, done
vars == <<rate, blocks, open, closed, out, msg, n, hist, done>>

Log(e) == n' = n + 1 /\ hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
\* the word-wise algorithm: what is left of the open word, the rest of the block, whole blocks, whole words, bytes
RECURSIVE Take(_, _, _)
Take(bs, op, d) ==           \* absorb d after the open block op
    IF Len(op) + Len(d) < rate THEN <<bs, op \o d>>
    ELSE LET k == rate - Len(op) IN Take(Append(bs, op \o SubSeq(d, 1, k)), <<>>, SubSeq(d, k + 1, Len(d)))
RECURSIVE Cut(_)
Cut(m) == IF Len(m) < rate THEN <<<<>>, m>> ELSE LET t == Cut(SubSeq(m, rate + 1, Len(m))) IN <<<<SubSeq(m, 1, rate)>> \o t[1], t[2]>>
Data(k) == [i \in 1 .. k |-> (Len(msg) + i) % 7]

Rates == IF Gen = "no" THEN {R} ELSE {168, 136, 72, 32}
Init == rate \in Rates /\ blocks = <<>> /\ open = <<>> /\ closed = FALSE /\ out = 0 /\ msg = <<>> /\ n = 0 /\ hist = <<>> /\ done = FALSE
Absorb(k, fin, io) ==
    /\ ~closed /\ (Gen # "no" \/ Len(msg) + k <= MaxLen)
    /\ IF Gen = "no"
       THEN LET t == Take(blocks, open, Data(k)) IN blocks' = t[1] /\ open' = t[2] /\ msg' = msg \o Data(k)
       ELSE UNCHANGED <<blocks, open, msg>>
    /\ closed' = fin
    /\ Log([op |-> "inc", k |-> k, fin |-> fin, io |-> io, id |-> n + 1]) /\ UNCHANGED <<rate, out, done>>
Squeeze(b, oo) == closed /\ out' = out + b /\ Log([op |-> "sq", k |-> b, io |-> oo, fin |-> FALSE, id |-> 0]) /\ UNCHANGED <<rate, blocks, open, closed, msg, done>>
Part(k, oo) == closed /\ out' = out + 1 /\ Log([op |-> "part", k |-> k, io |-> oo, fin |-> FALSE, id |-> 0]) /\ UNCHANGED <<rate, blocks, open, closed, msg, done>>
Ks == IF Gen = "no" THEN 0 .. 2 * R + 1 ELSE {0, 1, 2, 3, 5, 7, 8, 9, 11, 13, 16, 17, 24, rate - 9, rate - 8, rate - 1, rate, rate + 1, rate + 7, 2 * rate, 2 * rate + 5, 3 * rate - 8}
Offs == IF Gen = "no" THEN {0} ELSE {0, 3}
Free == /\ n < Steps
        /\ IF closed THEN \E o \in Offs : (\E b \in 0 .. 3 : Squeeze(b, o)) \/ (\E k \in {0, 1, 7, 8, 31, rate - 1, rate} : Part(k, o))
           ELSE \E k \in Ks, o \in Offs : Absorb(k, n >= Steps \div 2 /\ (k + n) % 2 = 0, o)
Next == Free \/ (n = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<rate, blocks, open, closed, out, msg, n, hist>>)
\* every pair and triple of pieces
Pair == IF n < 3 THEN \E k \in Ks : Absorb(k, n = 2, 0)
        ELSE ~done /\ done' = TRUE /\ UNCHANGED <<rate, blocks, open, closed, out, msg, n, hist>>
\* -- helpers that do it all in one call -----------------------------------------
Shot(f, r, rd, m, k, x, o, io, oo) == [op |-> "shot", f |-> f, rate |-> r, rounds |-> rd, m |-> m, k |-> k, x |-> x, n |-> o, io |-> io, oo |-> oo]
Around(r) == {0, 1, 7, 8, r - 9, r - 8, r - 7, r - 3, r - 2, r - 1, r, r + 1, 2 * r - 1, 2 * r, 2 * r + 5, 3 * r + 11}
Outs(r) == {1, 8, 13, r - 1, r, r + 1, 2 * r, 3 * r + 5}
Rate4 == {168, 136, 72, 32}
Shots ==
    {Shot("compute", r, rd, m, 0, 0, (200 - r) \div 2, io, 3) : r \in {168, 136, 72}, rd \in {12, 24, 48}, m \in UNION {Around(q) : q \in Rate4}, io \in {0, 5}}
    \cup UNION {{Shot("xof", r, rd, m, 0, 0, o, 3, io) : rd \in {12, 24, 36, 48}, m \in {0, 1, r - 1, r, r + 1, 2 * r + 5}, o \in Outs(r), io \in {0, 5}} : r \in Rate4}
    \cup UNION {{Shot("xof48", r, 48, m, 0, 0, o, 3, 5) : m \in Around(r), o \in Outs(r)} : r \in Rate4}
    \cup UNION {{Shot("cxof", r, rd, m, k, x, o, 0, 5) : rd \in {24, 48}, m \in {0, 1, r - 1, r, 2 * r + 5}, k \in {0, 1, 4, r - 7, r - 6, r - 5, r - 4, r - 3, r - 2, r, 300}, x \in {0, 1, 31, r}, o \in {13, r, 2 * r + 1}} : r \in {168, 136, 72}}
    \cup UNION {{Shot("mac", r, rd, m, k, x, o, 5, 2) : rd \in {24, 48}, m \in {0, 1, r - 4, r - 3, r - 2, r - 1, r, 2 * r - 3}, k \in {1, 16, r - 5, r - 4, r - 3, r, 300}, x \in {0, 17, r}, o \in {16, 32, r + 1}} : r \in {168, 136, 72}}
    \cup {Shot("sha256", 64, 64, m, 0, 0, 32, io, oo) : m \in Around(64) \cup 50 .. 66 \cup 114 .. 130, io \in {0, 3}, oo \in {0, 5}}
    \cup {Shot(f[1], 128, 80, m, 0, 0, f[2], io, 5) : f \in {<<"sha384", 48>>, <<"sha512", 64>>}, m \in Around(128) \cup 106 .. 130 \cup 236 .. 258, io \in {0, 3}}
    \cup {Shot("hmac256", 64, 64, m, k, 0, 32, io, 5) : m \in {0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 128, 200}, k \in {1, 16, 32, 63, 64}, io \in {0, 3}}
    \cup {Shot("hmac512", 128, 80, m, k, 0, 64, io, 5) : m \in {0, 1, 110, 111, 112, 113, 127, 128, 129, 239, 240, 256, 400}, k \in {1, 32, 64, 127, 128}, io \in {0, 3}}
ShotInit == rate = 168 /\ blocks = <<>> /\ open = <<>> /\ closed = FALSE /\ out = 0 /\ msg = <<>> /\ n = 0 /\ hist \in {<<s>> : s \in Shots} /\ done = TRUE
ShotNext == FALSE /\ UNCHANGED vars
\* -- four sponges in the lanes of one: absorb whole messages of one length, squeeze blocks ---------------
Four == {<<[op |-> "four", rate |-> r, m |-> m, b |-> b]>> : r \in {168, 136, 72}, m \in UNION {Around(q) : q \in {168, 136, 72}} \cup 0 .. 40, b \in 1 .. 3}
FourInit == rate = 168 /\ blocks = <<>> /\ open = <<>> /\ closed = FALSE /\ out = 0 /\ msg = <<>> /\ n = 0 /\ hist \in Four /\ done = TRUE
\* -- a state the caller owns: customized or not, absorbed into whole, then drawn from in one of three ways ---
\* (cu = -1: no customization; "fin" appends the output length and the domain to what was absorbed incrementally)
Wholes == UNION {{[op |-> "whole", rate |-> r, rounds |-> rd, dom |-> d, cu |-> cu, nm |-> nm, m |-> m, io |-> 3, way |-> w, k |-> k] :
              rd \in {24, 48}, d \in {6, 31}, cu \in {-1, 0, 5, r - 3, r}, nm \in {0, 4, r - 4, r - 3}, m \in {0, 1, 8, 13, r - 12, r - 8, r - 1, r, 2 * r + 5},
              w \in {"sq", "fin"}, k \in {1, 3}} : r \in {168, 136, 72}}
WholeOk(e) == /\ (e.cu = -1 => e.nm = 0)
              /\ (e.way = "fin" => e.m % e.rate = 0 /\ e.dom = 6)       \* Finalize starts a block
Encs == {[op |-> "enc", b |-> b, d |-> d, o |-> o] : b \in {0, 7, 8, 15, 16, 24, 31, 32, 40, 48, 56, 63}, d \in {-1, 0, 1}, o \in {0, 2}}
WholeInit == rate = 168 /\ blocks = <<>> /\ open = <<>> /\ closed = FALSE /\ out = 0 /\ msg = <<>> /\ n = 0 /\ hist \in {<<e>> : e \in {x \in Wholes : WholeOk(x)} \cup Encs} /\ done = TRUE
Piecewise == <<blocks, open>> = Cut(msg)
Position == Len(open) = Len(msg) % rate /\ Len(open) < rate
View == <<rate, blocks, open, closed, out, msg, n>>
Emit == done => PrintT(<<"BEH", ToJson([rate |-> rate, h |-> hist])>>)
=============================================================================
