--------------------------------- MODULE Prng ---------------------------------
(* The buffered random generators (BCR, CSR, HCR over a DRBG; SecureRandom over *)
(* one of them).  A generator hands out the bytes of the stream of its engine;  *)
(* drawn is how much of the stream has been taken into the buffer of B bytes    *)
(* and pos the first unused byte of it.  A request is answered with one run of  *)
(* the stream.  Invariants: the runs of a stream never overlap and follow each  *)
(* other (no byte twice), every request is answered completely, and what lies   *)
(* in the buffer is taken from it before the engine is asked again.             *)
(* Bounded integers are drawn by rejection: BoundsHold states, over every pair  *)
(* of bounds of a small word, that what is accepted lies in the bounds, that    *)
(* something is accepted and that every value comes from equally many samples.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Gens, B, Steps, Gen
VARIABLES g, pos, drawn, epoch, upto, last, hist, done
vars == <<g, pos, drawn, epoch, upto, last, hist, done>>

Init == /\ g \in Gens /\ pos = (IF g.outer THEN B ELSE 0) /\ drawn = (IF g.outer THEN 0 ELSE B)
        /\ epoch = 0 /\ upto = 0 /\ last = [from |-> 0, n |-> 0] /\ hist = <<>> /\ done = FALSE
Log(e) == hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Run(q, n) == LET have == B - q.pos IN
             IF n = 0 THEN [pos |-> q.pos, drawn |-> q.drawn, runs |-> q.runs]
             ELSE IF n <= have THEN [pos |-> q.pos + n, drawn |-> q.drawn, runs |-> Append(q.runs, [from |-> q.drawn - have, n |-> n])]
             ELSE [pos |-> n % B, drawn |-> q.drawn + (n \div B + 1) * B, runs |-> Append(q.runs, [from |-> q.drawn, n |-> n])]
RECURSIVE Runs(_, _, _)
Runs(q, n, k) == IF k = 0 THEN q ELSE Runs(Run(q, n), n, k - 1)
Take(n, k, e) == LET q == Runs([pos |-> pos, drawn |-> drawn, runs |-> <<>>], n, k) IN
    /\ pos' = q.pos /\ drawn' = q.drawn
    /\ (IF q.runs = <<>> THEN UNCHANGED <<upto, last>> ELSE LET r == q.runs[Len(q.runs)] IN last' = r /\ upto' = r.from + r.n)
    /\ Log(e @@ [epoch |-> epoch, runs |-> q.runs]) /\ UNCHANGED <<g, epoch>>
Get(n, off, how) == Take(n, 1, [op |-> "get", n |-> n, off |-> off, how |-> how])
Refused(n, off, how) == Log([op |-> "bad", n |-> n, off |-> off, how |-> how]) /\ UNCHANGED <<g, pos, drawn, epoch, upto, last>>
Size(t) == CASE t \in {"i16", "u16"} -> 2 [] t \in {"i32", "u32"} -> 4 [] t \in {"i64", "u64", "d"} -> 8 [] OTHER -> 1
Next1(t) == Take(Size(t), 1, [op |-> "next", t |-> t])
Fill(w, n, off, sec) == Take(w * n, 1, [op |-> "fill", w |-> w, n |-> n, off |-> off, sec |-> sec])
\* smp: the kinds of the samples drawn, of which only the last is accepted
Draw(t, mx, mn, smp) == Take(Size(t), Len(smp), [op |-> "draw", t |-> t, mx |-> mx, mn |-> mn, smp |-> smp])
DrawBad(t, mx, mn) == Log([op |-> "drawbad", t |-> t, mx |-> mx, mn |-> mn]) /\ UNCHANGED <<g, pos, drawn, epoch, upto, last>>
\* a new key: the buffer is refilled from the new stream
Rekey == /\ ~g.outer /\ epoch' = epoch + 1 /\ drawn' = B /\ upto' = 0 /\ last' = [from |-> 0, n |-> 0] /\ Log([op |-> "reset"]) /\ UNCHANGED <<g, pos>>

Types == {"i16", "u16", "i32", "u32", "i64", "u64"}
Maxes == {"one", "two", "three", "seven", "half", "half+1", "top-1", "top"}
Mins(t) == {"none", "max", "max-1", "zero"} \cup (IF t \in {"i16", "i32", "i64"} THEN {"bottom", "bottom+1", "neg"} ELSE {})
Samples == {x \o y : x \in {<<>>, <<"top">>, <<"limit", "top">>}, y \in {<<"zero">>, <<"below">>, <<"some">>}}
Lens == {0, 1, 2, 7, B - 1, B, B + 1, 2 * B, 2 * B + 3}
Step == /\ Len(hist) < Steps /\ done' = FALSE
        /\ \/ \E n \in Lens, off \in {0, 5}, how \in {"vec", "sec"} : Get(n, off, how)
           \/ Rekey
           \/ \E t \in {"u16", "u32", "u64"} : Next1(t)
           \/ \E t \in {"c", "uc", "d", "i16", "i32", "i64"} : g.outer /\ Next1(t)
           \/ \E w \in {2, 4, 8}, n \in {0, 1, 3, 128, 300}, off \in {0, 2}, s \in BOOLEAN : (s => (w = 2 \/ ~g.outer)) /\ Fill(w, n, off, s)
           \/ g.outer /\ \E t \in Types, mx \in {"three", "half+1", "top"}, mn \in {"none", "zero", "max-1"}, s \in {<<"top", "below">>, <<"some">>} : Draw(t, mx, mn, s)
           \/ \E n \in {1, B}, off \in {0, 3}, how \in {"vec", "sec"} : ~g.outer /\ Refused(n, off, how)
Stop == done' = TRUE /\ UNCHANGED <<g, pos, drawn, epoch, upto, last, hist>>
Next == Step \/ (Gen # "no" /\ Len(hist) = Steps /\ ~done /\ Stop)
MCNext == /\ done' = FALSE /\ (Rekey \/ (\E n \in 0 .. 9 : Get(n, 0, "vec")) \/ \E t \in {"u16", "u32"}, k \in 1 .. 2 : Draw(t, "top", "none", [i \in 1 .. k |-> "top"]))
MCSpec == Init /\ [][MCNext]_vars
\* every type, pair of bounds and sequence of samples; a pair of lengths around the buffer
SweepNext ==
    \/ /\ done' = FALSE
       /\ \/ (IF g.outer
              THEN \/ Len(hist) = 0 /\ \E t \in Types, mx \in Maxes, s \in Samples : \E mn \in Mins(t) : Draw(t, mx, mn, s)
                   \/ Len(hist) = 0 /\ \E t \in Types : (DrawBad(t, "zero", "none") \/ DrawBad(t, "zero", "zero") \/ DrawBad(t, "two", "seven"))
              ELSE Len(hist) = 0 /\ \E n \in Lens : Get(n, 0, "vec"))
          \/ Len(hist) = 1 /\ \E n \in Lens : (~g.outer \/ n = 7) /\ Get(n, 2, "sec")
          \/ Len(hist) = 2 /\ \E n \in Lens : (~g.outer \/ n = B) /\ Get(n, 0, "vec")
    \/ Len(hist) = 3 /\ ~done /\ Stop
-------------------------------------------------------------------------------
TypeOK == pos \in 0 .. B /\ drawn % B = 0
Once == [][(last' # last /\ epoch' = epoch) => last'.from >= upto]_vars
InBuffer == upto <= drawn
BufferFirst == pos + drawn >= B
MCBound == drawn <= 6 * B /\ epoch <= 1
MCView == <<g, pos, drawn, epoch, upto, last>>

\* -- rejection sampling over words of W values ----------------------------------
W == 16
Lim(top, r) == top - (top % r)
Uns(mx, mn) == {<<x, mn + (x % (mx - mn + 1))>> : x \in {y \in 0 .. W - 1 : mx - mn + 1 = W \/ y < Lim(W - 1, mx - mn + 1)}}
One(mx) == {<<x, x % mx>> : x \in {y \in 0 .. W - 1 : y < Lim(W - 1, mx)}}
BoundsHold ==
    /\ \A mx \in 1 .. W - 1, mn \in - W \div 2 .. W - 1 : (mn <= mx /\ mx - mn + 1 <= W) =>
           LET a == Uns(mx, mn) IN /\ {p[2] : p \in a} = mn .. mx
                                   /\ \A u, v \in mn .. mx : Cardinality({p \in a : p[2] = u}) = Cardinality({p \in a : p[2] = v})
    /\ \A mx \in 1 .. W - 1 : LET a == One(mx) IN /\ {p[2] : p \in a} = 0 .. mx - 1
                                                  /\ \A u, v \in 0 .. mx - 1 : Cardinality({p \in a : p[2] = u}) = Cardinality({p \in a : p[2] = v})
ASSUME BoundsHold

P(n, o) == [n |-> n, outer |-> o]
MCGens == {P("a", TRUE), P("b", FALSE)}
AllGens == {P("SecureRandom", TRUE), P("BCR", FALSE), P("CSR128", FALSE), P("CSR256", FALSE), P("CSR512", FALSE), P("HCR256", FALSE), P("HCR512", FALSE)}
Emit == done => PrintT(<<"BEH", ToJson([g |-> g, h |-> hist])>>)
=============================================================================
