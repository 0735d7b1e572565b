--------------------------------- MODULE Simd ---------------------------------
(* The SIMD integer types: a register is a sequence of Lanes unsigned integers *)
(* of Width bits, every operator acts on each lane as the scalar type does,    *)
(* masks are all ones or zero, and an operator changes only its destination.   *)
(* The laws are checked over every value of a small width; the library's types *)
(* (16, 32 and 64 bits) are driven by the behaviours.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Width, Lanes, Regs, Steps, Gen
VARIABLES reg, n, hist, done
vars == <<reg, n, hist, done>>

M == 2 ^ Width
Val == 0 .. M - 1
Vec == [1 .. Lanes -> Val]
Pow(k) == 2 ^ k
Neg(x) == (M - x) % M
Not(x) == M - 1 - x
RECURSIVE And_(_, _, _)
And_(x, y, k) == IF k = 0 THEN 0 ELSE (x % 2) * (y % 2) + 2 * And_(x \div 2, y \div 2, k - 1)
And(x, y) == And_(x, y, Width)
Or(x, y) == x + y - And(x, y)
Xor(x, y) == x + y - 2 * And(x, y)
Mask(b) == IF b THEN M - 1 ELSE 0
Shl(x, k) == (x * Pow(k)) % M
Shr(x, k) == x \div Pow(k)
Sra(x, k) == IF x < M \div 2 THEN Shr(x, k) ELSE Not(Shr(Not(x), k))
RotL(x, k) == (Shl(x, k % Width) + Shr(x, Width - (k % Width))) % M
RotR(x, k) == RotL(x, Width - (k % Width))
Abs(x) == IF x < M \div 2 THEN x ELSE Neg(x)
\* the scalar operators, by name
Bin == {"add", "sub", "mul", "div", "mod", "xor", "or", "and", "andnot", "gt", "lt", "ge", "le", "eq", "ne"}
Un == {"neg", "not", "lnot", "abs", "swap", "inc", "dec"}
Sh == {"shl", "shr", "sra", "srl", "rotl", "rotr"}
Scalar2(op, x, y) ==
    CASE op = "add" -> (x + y) % M [] op = "sub" -> (x + M - y) % M [] op = "mul" -> (x * y) % M
      [] op = "div" -> x \div y [] op = "mod" -> x % y [] op = "xor" -> Xor(x, y) [] op = "or" -> Or(x, y)
      [] op = "and" -> And(x, y) [] op = "andnot" -> And(Not(x), y) [] op = "gt" -> Mask(x > y) [] op = "lt" -> Mask(x < y)
      [] op = "ge" -> Mask(x >= y) [] op = "le" -> Mask(x <= y) [] op = "eq" -> Mask(x = y) [] op = "ne" -> Mask(x # y)
SwapBytes(x) == LET h == Width \div 2 IN (x % Pow(h)) * Pow(h) + x \div Pow(h)    \* two "bytes"
Scalar1(op, x) ==
    CASE op = "neg" -> Neg(x) [] op = "not" -> Not(x) [] op = "lnot" -> Mask(x = 0) [] op = "abs" -> Abs(x)
      [] op = "swap" -> SwapBytes(x) [] op = "inc" -> (x + 1) % M [] op = "dec" -> (x + M - 1) % M
ScalarS(op, x, k) ==
    CASE op = "shl" -> Shl(x, k) [] op \in {"shr", "srl"} -> Shr(x, k) [] op = "sra" -> Sra(x, k)
      [] op = "rotl" -> RotL(x, k) [] op = "rotr" -> RotR(x, k)

Log(e) == n' = n + 1 /\ hist' = IF Gen = "no" THEN hist ELSE Append(hist, e)
Op2(op, d, a, b) == /\ (op \in {"div", "mod"} => \A l \in 1 .. Lanes : Gen # "no" \/ reg[b][l] # 0)
                    /\ reg' = IF Gen = "no" THEN [reg EXCEPT ![d] = [l \in 1 .. Lanes |-> Scalar2(op, reg[a][l], reg[b][l])]] ELSE reg
                    /\ Log([op |-> op, d |-> d, a |-> a, b |-> b, k |-> 0, t |-> "bin"])
Op1(op, d, a) == /\ reg' = IF Gen = "no" THEN [reg EXCEPT ![d] = [l \in 1 .. Lanes |-> Scalar1(op, reg[a][l])]] ELSE reg
                 /\ Log([op |-> op, d |-> d, a |-> a, b |-> a, k |-> 0, t |-> "un"])
OpS(op, d, a, k) == /\ reg' = IF Gen = "no" THEN [reg EXCEPT ![d] = [l \in 1 .. Lanes |-> ScalarS(op, reg[a][l], k)]] ELSE reg
                    /\ Log([op |-> op, d |-> d, a |-> a, b |-> a, k |-> k, t |-> "sh"])

\* -- the laws (small constants) ------------------------------------------------
MInit == reg \in [1 .. Regs -> Vec] /\ n = 0 /\ hist = <<>> /\ done = FALSE
MNext == n < Steps /\ UNCHANGED done /\
         \E d, a, b \in 1 .. Regs : (\E op \in Bin : Op2(op, d, a, b)) \/ (\E op \in Un : Op1(op, d, a)) \/ (\E op \in Sh, k \in 0 .. Width : (op \in {"rotl", "rotr"} => k < Width) /\ OpS(op, d, a, k))
TypeOK == reg \in [1 .. Regs -> Vec]
Laws == \A a, b \in 1 .. Regs, l \in 1 .. Lanes : LET x == reg[a][l] y == reg[b][l] IN
    /\ (x + Neg(x)) % M = 0 /\ Scalar2("add", Scalar2("sub", x, y), y) = x
    /\ Xor(Xor(x, y), y) = x /\ Or(x, y) = Not(And(Not(x), Not(y))) /\ And(Not(x), y) + And(x, y) = y /\ Not(x) = Xor(x, M - 1) /\ Xor(x, y) = And(Or(x, y), Not(And(x, y)))
    /\ (y # 0 => ((x \div y) * y) + (x % y) = x)
    /\ Cardinality({op \in {"gt", "lt", "eq"} : Scalar2(op, x, y) = M - 1}) = 1
    /\ Scalar2("ge", x, y) = Not(Scalar2("lt", x, y)) /\ Scalar2("le", x, y) = Not(Scalar2("gt", x, y)) /\ Scalar2("ne", x, y) = Not(Scalar2("eq", x, y))
    /\ SwapBytes(SwapBytes(x)) = x /\ Scalar1("dec", Scalar1("inc", x)) = x
    /\ \A k \in 0 .. Width - 1 : RotR(RotL(x, k), k) = x /\ RotL(x, k) = RotR(x, Width - k)
    /\ \A k \in 0 .. Width : Shr(x, k) <= x /\ (x < M \div 2 => Sra(x, k) = Shr(x, k))
\* -- behaviours for the library -------------------------------------------------
Types == {"UInt128", "UShort128", "UInt256", "ULong256"}
Classes == {"rnd", "rnd2", "zero", "ones", "one", "low", "min", "max", "nz"}
Width_(t) == CASE t = "UShort128" -> 16 [] t = "ULong256" -> 64 [] OTHER -> 32
Forms(op) == CASE op \in {"add", "sub", "mul", "div", "mod", "xor", "or", "and", "shl", "shr"} -> {"op", "op="}
               [] op \in {"rotl", "rotr", "swap"} -> {"member", "static"}
               [] op \in {"inc", "dec"} -> {"prefix", "postfix"}
               [] OTHER -> {"op"}
E(t, op, f, a, b, k) == [type |-> t, h |-> <<[op |-> "set", form |-> "array", d |-> 1, a |-> 0, b |-> 0, k |-> 0, cls |-> a], [op |-> "set", form |-> "array", d |-> 2, a |-> 0, b |-> 0, k |-> 0, cls |-> b],
                                             [op |-> op, form |-> f, d |-> 3, a |-> 1, b |-> 2, k |-> k, cls |-> ""]>>]
Ds == {"rnd", "rnd2", "ones", "one", "low", "min", "max", "nz"}
Sweep == UNION {UNION {{E(t, op, f, a, b, 0) : f \in Forms(op), a \in Classes, b \in IF op \in {"div", "mod"} THEN Ds \ {"rnd", "rnd2", "low"} ELSE Classes} : op \in Bin} : t \in Types}
    \cup UNION {UNION {{E(t, op, f, a, "rnd", 0) : f \in Forms(op), a \in Classes} : op \in Un} : t \in Types}
    \cup UNION {UNION {{E(t, op, f, a, "rnd", k) : f \in Forms(op), a \in {"rnd", "min", "max", "ones"}, k \in 0 .. Width_(t)} : op \in Sh} : t \in Types}
SetForms == {"array", "ctor", "one", "each", "loadul", "ctorone", "ctoreach", "const1", "const0", "assign"}
SetE(t, f, c) == [type |-> t, h |-> <<[op |-> "set", form |-> "array", d |-> 1, a |-> 0, b |-> 0, k |-> 0, cls |-> "rnd"], [op |-> "set", form |-> f, d |-> 2, a |-> 1, b |-> 0, k |-> 0, cls |-> c]>>]
MoveE(t, c) == [type |-> t, h |-> <<[op |-> "move4", form |-> "op", d |-> 0, a |-> 0, b |-> 0, k |-> 0, cls |-> c]>>]
Sets == {SetE(t, f, c) : t \in Types, f \in SetForms, c \in Classes} \cup {MoveE(t, c) : t \in {"UInt128", "UInt256"}, c \in {"rnd", "rnd2"}}
\* walks over four registers
None == [op |-> "", form |-> "", k |-> 0]
WInit == reg \in [type : Types, next : {None}] /\ n = 0 /\ hist = <<>> /\ done = FALSE
WLog(e) == n' = n + 1 /\ hist' = Append(hist, e) /\ reg' = [reg EXCEPT !.next = None] /\ UNCHANGED done
Choices == UNION {{[op |-> op, form |-> f, k |-> 0] : f \in Forms(op)} : op \in (Bin \ {"div", "mod"}) \cup Un}
           \cup UNION {{[op |-> op, form |-> f, k |-> k] : f \in Forms(op), k \in {0, 1, 7, 8, 13, Width_(reg.type) - 1, Width_(reg.type)}} : op \in Sh}
WNext == \/ /\ n < 4
            /\ \E c \in Classes, f \in {"array", "each"} : WLog([op |-> "set", form |-> f, d |-> n + 1, a |-> 0, b |-> 0, k |-> 0, cls |-> c])
         \/ n \in 4 .. Steps - 1 /\ reg.next = None /\ \E e \in Choices : reg' = [reg EXCEPT !.next = e] /\ UNCHANGED <<n, hist, done>>
         \/ /\ reg.next # None
            /\ \E d, a, b \in 1 .. 4 : WLog([op |-> reg.next.op, form |-> reg.next.form, d |-> d, a |-> a, b |-> b, k |-> reg.next.k, cls |-> ""])
         \/ n = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<reg, n, hist>>
GInit == reg = [type |-> "all"] /\ n = 0 /\ hist \in {x : x \in Sweep \cup Sets} /\ done = TRUE
GNext == FALSE /\ UNCHANGED vars
Emit == done => PrintT(<<"BEH", ToJson(IF Gen = "walk" THEN [type |-> reg.type, h |-> hist] ELSE hist)>>)
=============================================================================
