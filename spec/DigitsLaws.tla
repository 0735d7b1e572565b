------------------------------ MODULE DigitsLaws -------------------------------
EXTENDS Digits
CONSTANTS K, Top
VARIABLE n
Init == n = 1
Next == n < Top /\ n' = n + 1
Spec == Init /\ [][Next]_n
Lawful == Laws(n)
Shifting == B = 2 ^ K => Shifts(n, K)
=============================================================================
