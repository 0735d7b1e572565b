--------------------------------- MODULE Runs ---------------------------------
(* Byte strings by where their bytes come from: a sequence of runs, each n      *)
(* bytes of source s from its offset o on (source 0: zeros).                    *)
EXTENDS Integers, Sequences

RECURSIVE Total(_)
Total(d) == IF d = <<>> THEN 0 ELSE Head(d).n + Total(Tail(d))
RECURSIVE Slice(_, _, _)          \* n bytes of d from o on
Slice(d, o, n) == IF n = 0 \/ d = <<>> THEN <<>>
                  ELSE LET h == Head(d) IN
                       IF o >= h.n THEN Slice(Tail(d), o - h.n, n)
                       ELSE LET m == IF n < h.n - o THEN n ELSE h.n - o IN
                            <<[s |-> h.s, o |-> h.o + o, n |-> m]>> \o Slice(Tail(d), 0, n - m)
Run(s, o, n) == IF n = 0 THEN <<>> ELSE <<[s |-> s, o |-> o, n |-> n]>>
Upto(d, n) == IF n <= Total(d) THEN Slice(d, 0, n) ELSE d \o Run(0, 0, n - Total(d))
\* r laid over d from p on
Overlay(d, p, r) == Upto(d, p) \o r \o Slice(d, p + Total(r), Total(d))
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
