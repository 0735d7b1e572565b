------------------------------- MODULE Padding -------------------------------
(* Block padding: ESP (1 2 3 .. n), PKCS7 (n n .. n), X923 (0 .. 0 n) and       *)
(* ZeroOne (128 0 .. 0).                                                        *)
(* Definition (Start): where a validly padded stretch's padding begins, or the  *)
(* end when it is not validly padded. Machine (Scan): the constant-time pass    *)
(* from the end that only looks at one or two bytes at a time.                  *)
(* Invariants: the pass finds what the definition says for every message, and   *)
(* what Add wrote is found where it was written, with the data left alone.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Max, Alphabet, Tails, Blocks, Gen
VARIABLES scheme, off, msg, at, phase, done
vars == <<scheme, off, msg, at, phase, done>>
Schemes == {"ESP", "PKCS7", "X923", "ZeroOne"}

Add(s, m, from) ==      \* pads m[from+1 .. Len(m)]
    LET n == Len(m) - from IN
    [i \in 1 .. Len(m) |-> IF i <= from THEN m[i]
        ELSE CASE s = "ESP" -> i - from [] s = "PKCS7" -> n [] s = "X923" -> IF i = Len(m) THEN n ELSE 0
               [] s = "ZeroOne" -> IF i = from + 1 THEN 128 ELSE 0]

\* -- definition: p bytes of data before the padding, offset o <= p < Len -------
Padded(s, m, p) ==
    LET n == Len(m) - p IN
    CASE s = "ESP" -> \A i \in p + 1 .. Len(m) : m[i] = i - p
      [] s = "PKCS7" -> \A i \in p + 1 .. Len(m) : m[i] = n
      [] s = "X923" -> m[Len(m)] = n /\ \A i \in p + 1 .. Len(m) - 1 : m[i] = 0
      [] s = "ZeroOne" -> m[p + 1] = 128 /\ \A i \in p + 2 .. Len(m) : m[i] = 0
Start(s, m, o) == LET P == {p \in o .. Len(m) - 1 : Padded(s, m, p)} IN
                  IF P = {} THEN Len(m) ELSE CHOOSE p \in P : TRUE
Unique(s, m, o) == Cardinality({p \in o .. Len(m) - 1 : Padded(s, m, p)}) <= 1

\* -- machine -------------------------------------------------------------------
RECURSIVE Pass(_, _, _, _, _), Pass01(_, _, _, _, _)
Pass(s, m, o, i, pos) ==        \* i: 0-based index, downwards
    IF i < o THEN TRUE
    ELSE /\ CASE s = "ESP" -> (i > pos /\ i > o => m[i] = m[i + 1] - 1)
              [] s = "PKCS7" -> (i >= pos => m[i + 1] = m[Len(m)])
              [] s = "X923" -> (i >= pos /\ i < Len(m) - 1 => m[i + 1] = 0)
         /\ Pass(s, m, o, i - 1, pos)
Pass01(m, o, i, seen, pos) ==   \* <<valid, position>>
    IF i < o THEN <<seen, pos>>
    ELSE LET s == seen \/ m[i + 1] = 128 IN
         IF ~s /\ m[i + 1] # 0 THEN <<FALSE, 0>> ELSE Pass01(m, o, i - 1, s, IF s THEN pos ELSE pos - 1)
Scan(s, m, o) ==
    IF s = "ZeroOne" THEN LET r == Pass01(m, o, Len(m) - 1, FALSE, Len(m) - 1) IN IF r[1] THEN r[2] ELSE Len(m)
    ELSE LET pos == Len(m) - m[Len(m)] IN
         IF m[Len(m)] > Len(m) - o THEN Len(m) ELSE IF Pass(s, m, o, Len(m) - 1, pos) THEN pos ELSE Len(m)

Init == scheme \in Schemes /\ off = 0 /\ msg = <<>> /\ at = 0 /\ phase = "start" /\ done = FALSE
\* every message of up to Max bytes of the alphabet, with every offset
Every == /\ phase = "start" /\ phase' = "any" /\ done' = TRUE
       /\ \E n \in 1 .. Max : \E m \in [1 .. n -> Alphabet] : msg' = m
       /\ off' \in 0 .. Max - 1 /\ off' < Len(msg') /\ UNCHANGED <<scheme, at>>
\* every data tail before a padding of every length, and one of its bytes disturbed
Fill(n) == [i \in 1 .. n |-> (i * 37) % 256]
Tailed(n, t) == [i \in 1 .. n |-> IF i + Len(t) > n THEN t[i + Len(t) - n] ELSE Fill(n)[i]]
Pad == /\ phase = "start" /\ phase' = "pad" /\ done' = TRUE
       /\ \E b \in Blocks, t \in Tails : \E d \in 0 .. b - 1 :
             /\ d >= Len(t) /\ at' = d
             /\ msg' = Add(scheme, Tailed(d, t) \o [i \in 1 .. b - d |-> 85], d)
       /\ off' \in {0, at'} \cup (IF at' > 2 THEN {2} ELSE {}) /\ UNCHANGED scheme
Disturb == /\ phase = "start" /\ phase' = "bad" /\ done' = TRUE
           /\ \E b \in Blocks : \E d \in 0 .. b - 1 : \E j \in d + 1 .. b : \E v \in {0, 1, 128, 255, j} :
                /\ b <= 32 \/ (j \in {d + 1, d + 2, b - 1, b} /\ d % 7 = 0)
                /\ at' = d /\ msg' = [Add(scheme, Tailed(d, <<>>) \o [i \in 1 .. b - d |-> 85], d) EXCEPT ![j] = v]
           /\ off' \in {0, at'} /\ UNCHANGED scheme
Next == Every \/ (Blocks # {} /\ (Pad \/ Disturb))
-------------------------------------------------------------------------------
Finds == done => Scan(scheme, msg, off) = Start(scheme, msg, off)
OneStart == done => Unique(scheme, msg, off)
Back == phase = "pad" => Start(scheme, msg, off) = at
Emit == done => PrintT(<<"BEH", ToJson([s |-> scheme, m |-> msg, o |-> off, at |-> at, ph |-> phase, st |-> Start(scheme, msg, off)])>>)
NoTails == {<<>>}
TailSet == {<<>>, <<128>>, <<128, 0, 0>>, <<0>>, <<1>>, <<1, 2, 3>>, <<2, 2>>, <<255>>, <<1, 1>>, <<16>>}
=============================================================================
