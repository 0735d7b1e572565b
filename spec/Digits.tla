-------------------------------- MODULE Digits ---------------------------------
(* Numbers as sequences of digits of base B, the least significant first, and   *)
(* what the library's counters, conversions, shifts and constant-time words are *)
(* to compute with them.  The laws below tie them to the integers; they are     *)
(* checked exhaustively for small bases and lengths.                            *)
EXTENDS Integers, Sequences
CONSTANT B

Rev(d) == [i \in 1 .. Len(d) |-> d[Len(d) + 1 - i]]
Zeros(n) == [i \in 1 .. n |-> 0]
Fit(d, n) == [i \in 1 .. n |-> IF i <= Len(d) THEN d[i] ELSE 0]
\* d + v + c modulo B^Len(d)
RECURSIVE Carry(_, _, _, _)
Carry(d, v, c, i) == IF i > Len(d) THEN <<>>
                     ELSE LET s == d[i] + (IF i <= Len(v) THEN v[i] ELSE 0) + c IN <<(s % B)>> \o Carry(d, v, s \div B, i + 1)
Add(d, v) == Carry(d, v, 0, 1)
Inc(d) == Add(d, <<1>>)
Neg(d) == Inc([i \in 1 .. Len(d) |-> B - 1 - d[i]])
Sub(d, v) == Add(d, Neg(Fit(v, Len(d))))
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == i > 0 /\ (a[i] < b[i] \/ (a[i] = b[i] /\ LessFrom(a, b, i - 1)))
Less(a, b) == LessFrom(a, b, Len(a))
Lte(a, b) == ~Less(b, a)
\* the digits of a number in a base that divides this one's: words as their bits
Bits(d, k) == [i \in 1 .. k * Len(d) |-> (d[(i - 1) \div k + 1] \div (2 ^ ((i - 1) % k))) % 2]
FromBits(b, k) == [j \in 1 .. Len(b) \div k |-> LET RECURSIVE S(_)
                                                   S(i) == IF i > k THEN 0 ELSE b[(j - 1) * k + i] * (2 ^ (i - 1)) + S(i + 1) IN S(1)]
RotL(b, n) == [i \in 1 .. Len(b) |-> b[((i - 1 - n) % Len(b)) + 1]]
Shl1(b) == [i \in 1 .. Len(b) |-> IF i = 1 THEN 0 ELSE b[i - 1]]
\* ---- the laws
RECURSIVE Val(_)
Val(d) == IF d = <<>> THEN 0 ELSE d[1] + B * Val(Tail(d))
Numbers(n) == [1 .. n -> 0 .. B - 1]
Laws(n) == \A a, b \in Numbers(n) :
    /\ Val(Inc(a)) = (Val(a) + 1) % (B ^ n)
    /\ Val(Add(a, b)) = (Val(a) + Val(b)) % (B ^ n)
    /\ Val(Sub(a, b)) = (Val(a) - Val(b)) % (B ^ n)
    /\ (Less(a, b) <=> Val(a) < Val(b))
    /\ \A m \in 0 .. n : Val(Add(a, SubSeq(b, 1, m))) = (Val(a) + Val(SubSeq(b, 1, m))) % (B ^ n)
Shifts(n, k) == \A a \in Numbers(n) : LET b == Bits(a, k) w == n * k IN
    /\ FromBits(b, k) = a
    /\ \A r \in 0 .. w : Val(FromBits(RotL(b, r), k)) = ((Val(a) * (2 ^ r)) % (2 ^ w)) + ((Val(a) * (2 ^ r)) \div (2 ^ w))
    /\ Val(FromBits(Shl1(b), k)) = (2 * Val(a)) % (2 ^ w)
=============================================================================
