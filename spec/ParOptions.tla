------------------------------- MODULE ParOptions ------------------------------
(* The parallel options: a parallel block is a multiple of the minimum size, at *)
(* least that size where parallel processing is on; the minimum is the block    *)
(* size for every thread (and every lane, with SIMD); no more threads than      *)
(* processors unless told so.  The hardware's numbers are the trace's own.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Lanes
VARIABLES h, i, st
T == ndJsonDeserialize("trace.ndjson")
Fresh == [size |-> 0, deg |-> 0, min |-> 0, told |-> FALSE]
Init == h = 1 /\ i = 1 /\ st = Fresh
Ev == T[h].ev[i]
Down(n, m) == n - (n % m)
Max(a, b) == IF a > b THEN a ELSE b
\* r: block size, degree, minimum, size, on, processors as reported after the call
Sound(hist, e, told) == LET r == e.r IN
    /\ r.bs = hist.bs /\ r.deg >= 1 /\ r.min = r.deg * r.bs * (IF hist.simd THEN Lanes ELSE 1)
    /\ r.size % r.min = 0
    /\ (r.on => r.size >= r.min)
    /\ (told \/ r.deg <= Max(r.cpu, 1))
Right(hist, e, s) == LET r == e.r IN
    CASE e.op = "new" -> /\ (hist.kind = "auto" => r.on = (r.cpu > 1) /\ r.def)
                         /\ (hist.kind = "manual" /\ r.on => r.size = Max(r.min, Down(e.n, r.min)) \/ e.n = 0)
      [] e.op = "size" -> IF e.n < s.min THEN e.refused /\ r.size = s.size /\ r.min = s.min ELSE ~e.refused /\ r.size = Down(e.n, r.min)
      [] e.op = "degree" -> IF e.n = 0 THEN e.refused /\ r.deg = s.deg ELSE ~e.refused /\ r.deg = e.n
      [] e.op = "calc" -> /\ ~e.refused /\ (r.on => e.on) /\ (e.on /\ r.cpu > 1 => r.on)
                          /\ (e.d # 0 => r.deg = e.d \/ (~s.told /\ e.d > r.cpu)) /\ (e.d = 0 => r.deg = s.deg)
                          /\ (e.n # 0 => r.size = Down(e.n, r.min) \/ (r.on /\ e.n < r.min /\ r.size = r.min))
      [] OTHER -> FALSE
Told(e, s) == s.told \/ (e.op = "degree" /\ ~e.refused)
Turn == h' = h + 1 /\ i' = 1 /\ st' = Fresh
Next == h <= Len(T) /\
        IF i > Len(T[h].ev) THEN Turn
        ELSE IF Sound(T[h], Ev, Told(Ev, st)) /\ Right(T[h], Ev, st)
             THEN i' = i + 1 /\ st' = [size |-> Ev.r.size, deg |-> Ev.r.deg, min |-> Ev.r.min, told |-> Told(Ev, st)] /\ UNCHANGED h
        ELSE PrintT(<<"BEH", ToJson([reject |-> h, at |-> i])>>) /\ Turn
Spec == Init /\ [][Next]_<<h, i, st>>
Done == h > Len(T) => PrintT(<<"BEH", ToJson([histories |-> Len(T)])>>)
=============================================================================
