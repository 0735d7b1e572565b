------------------------------- MODULE Utilities -------------------------------
(* Calls of the integer and memory utilities with what each has to return: the  *)
(* digits are bytes.  Every call is an initial state; its expected result is    *)
(* computed here.  Edge values meet every carry, every length meets every place *)
(* of a vector's width.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Bitwise
CONSTANTS What, Deep
VARIABLE c
D == INSTANCE Digits WITH B <- 256

Pat(k, n) == [i \in 1 .. n |-> ((i * (2 * k + 5) + k * 101 + (i \div 7) * k + (i \div 64) * 3) % 256)]
All(v, n) == [i \in 1 .. n |-> v]
\* b with its bytes from at (0-based) on replaced by those of s
Put(b, at, s) == [i \in 1 .. Len(b) |-> IF i > at /\ i <= at + Len(s) THEN s[i - at] ELSE b[i]]
Cut(b, at, n) == SubSeq(b, at + 1, at + n)
Zip(op, a, b) == [i \in 1 .. Len(a) |-> IF op = "xor" THEN a[i] ^^ b[i] ELSE IF op = "and" THEN a[i] & b[i] ELSE a[i] | b[i]]
\* ------------------------------------------------------------------ memory
\* w, v: bytes of an element of the input and the output; i, o: offsets in elements; n: bytes
Fixed == [x \in {"128", "256", "512"} |-> CASE x = "128" -> 16 [] x = "256" -> 32 [] OTHER -> 64]
Round(n, w) == ((n + w - 1) \div w) * w
MemIn(k, w, i, n) == Pat(k, i * w + Round(n, w))
MemOut(k, v, o, n) == Pat(k + 3, o * v + Round(n, v) + v)
Effect(op, s, old, val) == CASE op \in {"copy", "copyx", "move", "raw", "toobj", "fromobj", "tovalue", "fromvalue"} -> s
                             [] op \in {"clear", "clearraw", "wipe"} -> All(0, Len(old))
                             [] op = "set" -> All(val, Len(old))
                             [] op \in {"xor", "xorraw", "xorpart", "and", "or"} -> Zip(IF op \in {"and", "or"} THEN op ELSE "xor", s, old)
                             [] op = "xorpad" -> Zip("xor", All(val, Len(old)), old)
Mem(op, w, v, i, o, n) == LET k == (n + 3 * w + 5 * v) % 50 inb == MemIn(k, w, i, n) out == MemOut(k, v, o, n) val == (n * 7 + 165) % 256 IN
    [f |-> op, w |-> w, v |-> v, in |-> inb, out |-> out, i |-> i, o |-> o, n |-> n, val |-> val,
     r |-> Put(out, o * v, Effect(op, Cut(inb, i * w, n), Cut(out, o * v, n), val))]
Wide(op, x, w, v, i, o) == LET n == Fixed[x] m == Mem(op, w, v, i, o, n) IN [m EXCEPT !.f = op \o x]
Lens == IF Deep THEN 0 .. 330 ELSE (0 .. 70) \cup {95, 96, 97, 127, 128, 129, 160, 191}
Some(w) == {n \in 0 .. (IF Deep THEN 200 ELSE 130) : (n % w) = 0 /\ ((n \div w) % (IF Deep THEN 1 ELSE 3)) = 0} \cup {w + 1, 32 + w - 1, 64 + w + 1, 96, 128}
Offs == {<<0, 0>>, <<1, 0>>, <<0, 3>>, <<5, 2>>}
Widths == {1, 2, 4, 8}
MemCases(z) == {Mem(op, 1, 1, p[1], p[2], n) : op \in {"copy", "copyx", "move", "toobj", "fromobj", "clear", "set", "and", "or"}, p \in Offs, n \in Lens}
       \cup {Mem(op, 1, 1, p[1], p[2], n) : op \in {"xor", "xorpart"}, p \in Offs, n \in Lens \ {0}}
       \cup {Mem(op, 1, 1, 0, 0, n) : op \in {"raw", "clearraw", "xorraw"}, n \in Lens \ {0}}
       \cup {Mem(op, w, w, p[1], p[2], n) : op \in {"copy", "move", "clear", "set", "toobj", "fromobj"}, w \in {2, 4, 8}, p \in Offs, n \in UNION {Some(x) : x \in {2, 4, 8}}}
       \cup {Mem(op, w, v, p[1], p[2], n) : op \in {"copyx", "toobj", "fromobj"}, w \in Widths, v \in Widths, p \in {<<0, 0>>, <<1, 2>>}, n \in Some(8)}
       \cup {Mem(op, w, v, p[1], p[2], n) : op \in {"xor", "and", "or"}, w \in Widths, v \in Widths, p \in {<<0, 0>>, <<1, 2>>}, n \in Some(8) \ {0}}
       \cup {Mem(op, 1, v, 0, o, n) : op \in {"fromvalue"}, v \in Widths, o \in 0 .. 2, n \in {1, 2, 4, 8}}
       \cup {Mem(op, w, 1, i, 0, n) : op \in {"tovalue"}, w \in Widths, i \in 0 .. 2, n \in {1, 2, 4, 8}}
       \cup {Wide(op, x, w, v, p[1], p[2]) : op \in {"copy", "xor", "and", "or"}, x \in DOMAIN Fixed, w \in Widths, v \in Widths, p \in {<<0, 0>>, <<1, 2>>, <<3, 1>>}}
       \cup {Wide(op, x, 1, v, 0, o) : op \in {"clear", "set"}, x \in DOMAIN Fixed, v \in Widths, o \in 0 .. 2}
       \cup {[f |-> "xor1024", w |-> w, v |-> v, in |-> Pat(w, 130 * w), out |-> Pat(9, 130 * v), i |-> 1, o |-> 2, n |-> 128, val |-> 0,
              r |-> Put(Pat(9, 130 * v), 2 * v, Zip("xor", Cut(Pat(w, 130 * w), w, 128), Cut(Pat(9, 130 * v), 2 * v, 128)))] : w \in Widths, v \in Widths}
       \cup {LET out == Pat(n, n) IN [f |-> op, w |-> 1, v |-> v, in |-> <<>>, out |-> out, i |-> 0, o |-> 0, n |-> n, val |-> val, r |-> Effect(op, out, out, val)]
              : op \in {"wipe", "xorpad"}, v \in {1}, n \in Lens, val \in {54}}
\* equality of m elements of w bytes from i and o on: at differs in one bit, or none
EqCases(z) == UNION {{LET a == Pat(n, (i + n + 1) * w) b0 == Put(Pat(77, (o + n + 1) * w), o * w, Cut(a, i * w, n * w)) IN
              [f |-> f, w |-> w, a |-> a, i |-> i, o |-> o, n |-> n, at |-> at, b |-> IF at = 0 THEN b0 ELSE Put(b0, o * w + at - 1, <<b0[o * w + at] ^^ (2 ^ ((bit + (at * 3) + n) % 8))>>), r |-> at = 0]
              : at \in {0} \cup (IF n > 8 /\ ~Deep THEN {1, 2, n, n * w, n * w - 1} ELSE 1 .. n * w), bit \in (IF Deep THEN {0, 3, 7} ELSE {0})} 
              : f \in {"mcompare", "icompare", "verify", "verifyo", "verifyraw", "diffmask"}, w \in Widths, n \in {1, 2, 3, 8, 16, 33, 64}, i \in {0, 2}, o \in {0, 1}}
EqAll(z) == {e \in EqCases(z) : (e.f = "verifyraw" => e.w = 1) /\ (e.f \in {"verify", "verifyraw", "diffmask"} => e.i = 0 /\ e.o = 0)}
\* ------------------------------------------------------------------ counters
Edge == {0, 1, 127, 128, 254, 255}
\* the low end first
Numerals == [1 .. 1 -> Edge] \cup [1 .. 2 -> Edge] \cup (IF Deep THEN [1 .. 3 -> Edge] ELSE {})
            \cup {[i \in 1 .. n |-> IF i <= k THEN lo ELSE IF i = k + 1 THEN e ELSE 9] : n \in {3, 4, 8, 9, 12, 16, 32}, k \in (IF Deep THEN {0, 1, 2, 3, 7, 8, 15, 31} ELSE {0, 1, 3, 8, 31}), e \in (IF Deep THEN {0, 128, 254, 255} ELSE {0, 255}), lo \in (IF Deep THEN {255, 254} ELSE {255})}
Values(t) == {Put(All(0, t), 0, <<1>>), All(255, t), Put(All(255, t), 0, <<1>>), Put(All(0, t), t - 1, <<128>>), Pat(t, t), All(0, t)}
Ctr(f, d, t, v, o, m) == LET le == f \in {"le.inc", "le.incn", "le.add", "le.add2", "le.add3", "le.add4"}
                             st == IF le THEN d ELSE D!Rev(d)
                             sum == D!Add(d, v) res == IF le THEN sum ELSE D!Rev(sum)
                             big == Pat(o + 1, o + Len(d) + m) IN
    [f |-> f, t |-> t, v |-> v, in |-> st, o |-> o, n |-> Len(d),
     out |-> CASE f \in {"be.inc", "le.inc", "be.add", "le.add"} -> st [] f \in {"be.incn", "le.incn"} -> Put(big, o, st) [] OTHER -> big,
     r |-> CASE f \in {"be.inc", "le.inc", "be.add", "le.add"} -> res [] OTHER -> Put(big, o, res)]
CtrCases(z) == {Ctr(f, d, 1, <<1>>, 0, 0) : f \in {"be.inc", "le.inc"}, d \in Numerals}
       \cup {Ctr("be.incn", d, 1, <<1>>, o, m) : d \in Numerals, o \in {0, 3}, m \in {0, 2}}
       \cup {Ctr("le.incn", d, 1, <<1>>, 0, m) : d \in Numerals, m \in {0, 2}}
       \cup UNION {{Ctr(f, d, t, v, 0, 0) : f \in {"be.add", "le.add"}, d \in Numerals, v \in Values(t)} : t \in Widths}
       \cup UNION {{Ctr(f, d, t, v, 0, 1) : f \in {"be.add2", "le.add2"}, d \in Numerals, v \in Values(t)} : t \in {1, 4, 8}}
       \cup UNION {{Ctr(f, d, t, v, 3, 2) : f \in {"be.add3", "be.add4", "le.add3", "le.add4"}, d \in Numerals, v \in Values(t)} : t \in (IF Deep THEN {1, 2, 4, 8} ELSE {4})}
\* counters of two words of w bytes, in an array of more
WordNum(w) == {Put(All(255, w), 0, <<e>>) \o hi : e \in Edge, hi \in {All(0, w), All(255, w)}} \cup {All(255, 2 * w), All(0, 2 * w), Pat(w, 2 * w)}
Wct(f, w, d, v) == [f |-> f, w |-> w, v |-> v, in |-> d \o Pat(5, w), out |-> Pat(8, 3 * w), r |-> D!Add(d, v) \o (Pat(5, w))]
WctCases(z) == UNION {{Wct("le.incw", w, d, <<1>>) : d \in WordNum(w)} \cup {Wct(f, w, d, v) : f \in {"le.addw", "le.addw2"}, d \in WordNum(w), v \in {<<0>>, <<1>>, <<2>>, <<64>>, <<255>>, <<0, 1>>, <<0, 16, 1>>, <<255, 255, 255>>}} : w \in {4, 8}}
\* ------------------------------------------------------------------ words
Words(w) == {All(0, w), Put(All(0, w), 0, <<1>>), Put(All(0, w), 0, <<2>>), All(255, w), Put(All(255, w), 0, <<254>>), Put(All(255, w), w - 1, <<127>>), Put(All(0, w), w - 1, <<128>>),
             Pat(w, w), Pat(w + 9, w), Put(All(0, w), w \div 2, <<1>>)}
Mask(p, w) == IF p THEN All(255, w) ELSE All(0, w)
Bit0(p, w) == Put(All(0, w), 0, <<IF p THEN 1 ELSE 0>>)
IsNul(a) == \A i \in 1 .. Len(a) : a[i] = 0
Top(a) == a[Len(a)] >= 128
Pow2(a) == Cardinality({i \in 1 .. 8 * Len(a) : D!Bits(a, 8)[i] = 1}) = 1
Two(f, a, b) == LET w == Len(a) IN
    CASE f \in {"max", "cmax"} -> IF D!Less(a, b) THEN b ELSE a
      [] f \in {"min", "cmin"} -> IF D!Less(a, b) THEN a ELSE b
      [] f = "abs" -> IF D!Less(a, b) THEN D!Sub(b, a) ELSE D!Sub(a, b)
      [] f = "satsub" -> IF D!Less(a, b) THEN All(0, w) ELSE D!Sub(a, b)
      [] f = "isequal" -> Mask(a = b, w)
      [] f = "isless" -> Mask(D!Less(a, b), w)
      [] f = "islte" -> Mask(D!Lte(a, b), w)
      [] f = "valueorzero" -> IF IsNul(a) THEN All(0, w) ELSE b
      [] f = "select1" -> a
      [] f = "select0" -> b
One(f, a) == LET w == Len(a) IN
    CASE f = "expandmask" -> Mask(~IsNul(a), w)
      [] f = "expandtop" -> Mask(Top(a), w)
      [] f = "iszero" -> Mask(IsNul(a), w)
      [] f = "ispow2" -> Bit0(Pow2(a), w)
      [] f \in {"be.to", "be.to2", "be.toraw", "be.from", "be.fromraw"} -> D!Rev(a)
      [] f \in {"le.to", "le.to2", "le.toraw", "le.from", "le.fromraw"} -> a
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F">>
RECURSIVE HexOf(_)
HexOf(a) == IF a = <<>> THEN "" ELSE Hex[a[1] \div 16 + 1] \o Hex[(a[1] % 16) + 1] \o HexOf(Tail(a))
\* decimal digits, the high end first
RECURSIVE DivTen(_, _), Dec(_)
DivTen(d, r) == IF d = <<>> THEN <<<<>>, r>> ELSE LET x == r * 256 + d[Len(d)] rest == DivTen(SubSeq(d, 1, Len(d) - 1), (x % 10)) IN <<Append(rest[1], x \div 10), rest[2]>>
Dec(d) == LET q == DivTen(d, 0) IN IF \A i \in 1 .. Len(d) : q[1][i] = 0 THEN Hex[q[2] + 1] ELSE Dec(q[1]) \o Hex[q[2] + 1]
WordCases(z) == UNION {{[f |-> f, w |-> w, a |-> a, b |-> b, r |-> Two(f, a, b)] : f \in {"max", "min", "cmax", "cmin", "abs", "satsub", "isequal", "isless", "islte", "valueorzero", "select1", "select0"}, a \in Words(w), b \in Words(w)} : w \in Widths}
        \cup UNION {{[f |-> f, w |-> w, a |-> a, b |-> <<>>, r |-> One(f, a)] : f \in {"expandmask", "expandtop", "iszero", "ispow2"}, a \in Words(w)} : w \in Widths}
        \cup UNION {{[f |-> f, w |-> w, a |-> a, b |-> <<>>, r |-> One(f, a)] : f \in {"be.to", "be.to2", "be.toraw", "be.from", "be.fromraw", "le.to", "le.to2", "le.toraw", "le.from", "le.fromraw"}, a \in Words(w)} : w \in {2, 4, 8}}
        \cup UNION {{[f |-> "modpow2", w |-> w, a |-> a, b |-> Put(All(0, w), k, <<2 ^ e>>), r |-> D!FromBits([i \in 1 .. 8 * w |-> IF i <= 8 * k + e THEN D!Bits(a, 8)[i] ELSE 0], 8)] : a \in Words(w), k \in {0, w - 1}, e \in {0, 1, 5, 7}} : w \in Widths}
        \cup UNION {{[f |-> "rotl", w |-> w, a |-> a, b |-> <<s>>, r |-> D!FromBits(D!RotL(D!Bits(a, 8), s), 8)] : a \in Words(w), s \in 0 .. 8 * w} : w \in {4, 8}}
        \cup UNION {{[f |-> "rotr", w |-> w, a |-> a, b |-> <<s>>, r |-> D!FromBits(D!RotL(D!Bits(a, 8), 8 * w - s), 8)] : a \in Words(w), s \in 0 .. 8 * w} : w \in {4, 8}}
        \cup UNION {{[f |-> "getbyte", w |-> w, a |-> a, b |-> <<i>>, r |-> <<a[w - i]>>] : a \in Words(w), i \in 0 .. w - 1} : w \in Widths}
        \cup {[f |-> "crop", w |-> 8, a |-> a, b |-> <<n>>, r |-> D!FromBits([i \in 1 .. 64 |-> IF i <= n THEN D!Bits(a, 8)[i] ELSE 0], 8)] : a \in Words(8), n \in 0 .. 64}
        \cup {[f |-> "parity", w |-> 8, a |-> a, b |-> <<>>, r |-> Put(All(0, 8), 0, <<Cardinality({i \in 1 .. 64 : D!Bits(a, 8)[i] = 1}) % 2>>)] : a \in Words(8) \cup {Pat(k, 8) : k \in 1 .. 40}}
\* blocks of words: n bytes from i on, to o (offsets in elements of each side)
Flip(s, w) == [i \in 1 .. Len(s) |-> s[((i - 1) \div w) * w + w - ((i - 1) % w)]]
Block(f, w, i, o, n) == LET tw == f \in {"toblock.be", "toblock.le"}      \* words to bytes
                            inb == Pat(n + w, (IF tw THEN i * w ELSE i) + n) out == Pat(n, (IF tw THEN o ELSE o * w) + n + 8)
                            s == Cut(inb, IF tw THEN i * w ELSE i, n) IN
    [f |-> f, w |-> w, in |-> inb, out |-> out, i |-> i, o |-> o, n |-> n,
     r |-> Put(out, IF tw THEN o ELSE o * w, IF f \in {"toblock.be", "fromblock.be"} THEN Flip(s, w) ELSE s)]
BlockCases(z) == {Block(f, w, i, o, n * w) : f \in {"toblock.be", "toblock.le", "fromblock.be", "fromblock.le"}, w \in {2, 4, 8}, i \in {0, 1, 3}, o \in {0, 2}, n \in {1, 2, 4, 5, 8, 16, 17}}
        \cup {[Block(IF be THEN "toblock.be" ELSE "toblock.le", w, i, o, n) EXCEPT !.f = IF be THEN "unit.be" ELSE "unit.le"] : be \in {FALSE}, w \in {8}, i \in {0, 1}, o \in {0, 3}, n \in {32, 64, 128}}
        \cup {[Block("toblock.le", 4, i, o, 32) EXCEPT !.f = "unit.le"] : i \in {0, 1}, o \in {0, 3}}
        \cup {[Block("toblock.be", 4, i, o, 32) EXCEPT !.f = "unit.be"] : i \in {0, 1}, o \in {0, 3}}
        \cup {[Block("toblock.be", 8, i, o, 64) EXCEPT !.f = "unit.be"] : i \in {0, 1}, o \in {0, 3}}
        \cup {[Block("fromblock.le", 8, i, o, n) EXCEPT !.f = "ununit.le"] : i \in {0, 3}, o \in {0, 1}, n \in {32, 64, 128}}
        \cup {[Block("fromblock.le", 4, i, o, 64) EXCEPT !.f = "ununit.le"] : i \in {0, 3}, o \in {0, 1}}
        \cup {LET a == Pat(n, 12) IN [f |-> "le.fromn", w |-> w, in |-> a, out |-> <<>>, i |-> i, o |-> 0, n |-> n, r |-> Put(All(0, w), 0, Cut(a, i, n))] : w \in {4, 8}, i \in {0, 1, 3}, n \in 1 .. 8}
BlockAll(z) == {b \in BlockCases(z) : b.f = "le.fromn" => b.n <= b.w}
\* arrays under conditions
CondCases(z) == {LET a == Pat(n, n + i) b == Pat(n + 4, n + o + 2) IN [f |-> "cmov", w |-> 1, a |-> a, b |-> b, i |-> i, o |-> o, n |-> n, p |-> p, r |-> IF p THEN Put(b, o, Cut(a, i, n)) ELSE b] : n \in {0, 1, 2, 15, 16, 17, 33, 64}, i \in {0, 2}, o \in {0, 3}, p \in BOOLEAN}
        \cup {LET a == Pat(n, n) b == Pat(n + 4, n + 1) IN [f |-> "cmovraw", w |-> 1, a |-> a, b |-> b, i |-> 0, o |-> 0, n |-> n, p |-> p, r |-> IF p THEN Put(b, 0, a) ELSE b] : n \in {0, 1, 2, 15, 16, 17, 33, 64}, p \in BOOLEAN}
        \cup {LET a == Pat(n, n * w) b == Pat(n + 4, n * w) IN [f |-> "ccopy", w |-> w, a |-> a, b |-> b, i |-> 0, o |-> 0, n |-> n, p |-> p, r |-> IF p THEN a ELSE b] : n \in {1, 2, 7, 16}, w \in Widths, p \in BOOLEAN}
        \cup {LET a == Pat(n, (n + 1) * w) IN [f |-> "czero", w |-> w, a |-> a, b |-> <<>>, i |-> 0, o |-> 0, n |-> n, p |-> p, r |-> IF p THEN Put(a, 0, All(0, n * w)) ELSE a] : n \in {1, 2, 7, 16}, w \in Widths, p \in BOOLEAN}
        \cup {LET be == D!FromBits(D!Shl1(D!Bits(D!Rev(a), 8)), 8) IN [f |-> "shiftleft", w |-> 1, a |-> a, b |-> <<>>, i |-> 0, o |-> 0, n |-> Len(a), p |-> Top(D!Rev(a)), r |-> D!Rev(be)] : a \in {D!Rev(d) : d \in Numerals} \cup {Pat(k, 16) : k \in 0 .. 20}}
\* text
TextCases(z) == {[f |-> "tohex", w |-> 1, a |-> Pat(n, n + i), i |-> i, n |-> n, r |-> HexOf(Cut(Pat(n, n + i), i, n))] : n \in 0 .. 40, i \in {0, 2}}
        \cup {[f |-> "fromhex", w |-> 1, a |-> Pat(n, n), i |-> 0, n |-> n, r |-> HexOf(Pat(n, n))] : n \in 1 .. 40}
        \cup UNION {{[f |-> f, w |-> w, a |-> a, i |-> 0, n |-> w, r |-> HexOf(D!Rev(a))] : f \in {"inttohex", "hextoint"}, a \in Words(w)} : w \in Widths}
        \cup UNION {{[f |-> f, w |-> w, a |-> a, i |-> 0, n |-> w, r |-> Dec(a)] : f \in {"dec", "undec"}, a \in Words(w)} : w \in Widths}
Cases(z) == CASE What = "memory" -> MemCases(z) [] What = "equal" -> EqAll(z) [] What = "counter" -> CtrCases(z) [] What = "wide" -> WctCases(z) [] What = "word" -> WordCases(z)
           [] What = "block" -> BlockAll(z) [] What = "cond" -> CondCases(z) [] What = "text" -> TextCases(z)
Init == c \in Cases(0)
Next == FALSE /\ UNCHANGED c
Emit == PrintT(<<"BEH", ToJson(c)>>)
=============================================================================
