-------------------------------- MODULE Params --------------------------------
(* Digest parameter blocks: a record of fields, written as the concatenation   *)
(* of their encodings at fixed places, read back from at least that many bytes.*)
(* Laws: reading what was written gives the same record, two records are equal *)
(* exactly when every field is, a copy is independent of its original, and an  *)
(* encoding that was cut short is refused.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Fields, Vals, Steps, Gen
VARIABLES obj, blob, seen, n, hist, done
vars == <<obj, blob, seen, n, hist, done>>

Objs == {"a", "b"}
Log(e) == n' = n + 1 /\ hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Write(r) == [i \in 1 .. Fields |-> r[i]]
Read(s) == IF Len(s) < Fields THEN <<>> ELSE [i \in 1 .. Fields |-> s[i]]
None == <<>>
Zero == [i \in 1 .. Fields |-> 0]
Make(o, r, form, sd) == obj' = [obj EXCEPT ![o] = r] /\ Log([op |-> "make", o |-> o, form |-> form, f |-> 0, sd |-> sd, p |-> "", cut |-> 0]) /\ UNCHANGED <<blob, seen, done>>
Set(o, f, v, cls) == obj[o] # None /\ obj' = [obj EXCEPT ![o][f] = v] /\ Log([op |-> "set", o |-> o, form |-> cls, f |-> f, sd |-> n, p |-> "", cut |-> 0]) /\ UNCHANGED <<blob, seen, done>>
Save(o) == obj[o] # None /\ blob' = Write(obj[o]) /\ seen' = obj[o] /\ Log([op |-> "save", o |-> o, form |-> "", f |-> 0, sd |-> 0, p |-> "", cut |-> 0]) /\ UNCHANGED <<obj, done>>
\* reading a cut encoding makes no object
Load(o, k, extra) == /\ blob # None
                     /\ LET s == SubSeq(blob, 1, Len(blob) - k) r == Read(s) IN
                        obj' = IF Gen = "no" THEN (IF r = None THEN obj ELSE [obj EXCEPT ![o] = r]) ELSE (IF k > 0 THEN obj ELSE [obj EXCEPT ![o] = seen])
                     /\ Log([op |-> "load", o |-> o, form |-> extra, f |-> 0, sd |-> 0, p |-> "", cut |-> k]) /\ UNCHANGED <<blob, seen, done>>
Copy(o, p, form) == obj[p] # None /\ o # p /\ obj' = [obj EXCEPT ![o] = obj[p]] /\ Log([op |-> "copy", o |-> o, form |-> form, f |-> 0, sd |-> 0, p |-> p, cut |-> 0]) /\ UNCHANGED <<blob, seen, done>>
Equal(o, p) == obj[o] # None /\ obj[p] # None /\ Log([op |-> "eq", o |-> o, form |-> "", f |-> 0, sd |-> 0, p |-> p, cut |-> 0]) /\ UNCHANGED <<obj, blob, seen, done>>

Init == obj = [o \in Objs |-> None] /\ blob = None /\ seen = None /\ n = 0 /\ hist = <<>> /\ done = FALSE
Free == /\ n < Steps
        /\ \/ \E o \in Objs : \/ \E r \in [1 .. Fields -> Vals] : Make(o, r, "full", 0)
                              \/ \E f \in 1 .. Fields, v \in Vals : Set(o, f, v, "")
                              \/ Save(o)
                              \/ \E k \in 0 .. Fields : Load(o, k, "")
           \/ \E o, p \in Objs : Copy(o, p, "") \/ Equal(o, p)
Next == Free
RoundTrip == blob # None => Read(blob) = seen
Refused == blob # None => \A k \in 1 .. Len(blob) : Read(SubSeq(blob, 1, Len(blob) - k)) = None
Injective == \A o, p \in Objs : (obj[o] # None /\ obj[p] # None) => ((Write(obj[o]) = Write(obj[p])) <=> \A i \in 1 .. Fields : obj[o][i] = obj[p][i])
View == <<obj, blob, seen, n>>
\* -- walks for the library: which class and output size is chosen first; fields are by number ----------------
Kinds == {<<"SHA2", 32>>, <<"SHA2", 64>>, <<"Keccak", 32>>, <<"Keccak", 64>>, <<"Keccak", 128>>, <<"Blake", 32>>, <<"Blake", 64>>, <<"Skein", 32>>, <<"Skein", 64>>, <<"Skein", 128>>}
\* "swapped": the second object is made of the same values in other fields
GNext == \/ /\ n < Steps
            /\ IF n = 0 THEN \E form \in {"full", "short"} : Make("a", Zero, form, 1)
               ELSE IF n = 1 THEN \E form \in {"full", "short"}, sd \in {1, 2} : Make("b", Zero, form, sd)
               ELSE \/ \E o \in Objs, f \in 1 .. 9, c \in {"rnd", "zero", "max", "bump"} : Set(o, f, 0, c)
                    \/ \E o \in Objs, f \in {1, 2, 3} : obj[o] # None /\ Log([op |-> "trade", o |-> o, form |-> "", f |-> f, sd |-> 0, p |-> "", cut |-> 0]) /\ UNCHANGED <<obj, blob, seen, done>>
                    \/ \E o \in Objs : Save(o)
                    \/ \E o \in Objs, x \in {"", "longer"} : Load(o, 0, x)
                    \/ \E o \in Objs, k \in {1, 2, 7, 8, 9, 24, 30, 71, 90} : Load(o, k, "")
                    \/ \E o, p \in Objs, f \in {"clone", "deep"} : Copy(o, p, f)
                    \/ \E o, p \in Objs : Equal(o, p)
         \/ n = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<obj, blob, seen, n, hist>>
\* two blocks that differ in one thing, or that hold the same values in other places
H(op, o, form, f, p) == [op |-> op, o |-> o, form |-> form, f |-> f, sd |-> 1, p |-> p, cut |-> 0]
Pairs == {<<H("make", "a", m, 0, ""), H("copy", "b", c, 0, "a"), H("eq", "a", "", 0, "b"), d, H("eq", "a", "", 0, "b"), H("eq", "b", "", 0, "a"), H("save", "b", "", 0, ""), H("load", "a", "", 0, ""), H("eq", "a", "", 0, "b"), u, H("eq", "a", "", 0, "b")>> :
             m \in {"full", "short"}, c \in {"clone", "deep"},
             d \in {H("trade", "b", "", f, "") : f \in 1 .. 3} \cup {H("set", "b", "bump", f, "") : f \in 1 .. 9}, u \in {H("set", "a", "rnd", f, "") : f \in {1, 4, 7}}}
PInit == obj = [o \in Objs |-> None] /\ blob = None /\ seen = None /\ n = 0 /\ hist \in Pairs /\ done = TRUE
PNext == FALSE /\ UNCHANGED vars
Emit == done => PrintT(<<"BEH", ToJson([h |-> hist])>>)
=============================================================================
