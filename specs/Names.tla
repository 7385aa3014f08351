------------------------------- MODULE Names -------------------------------
(* Texts as sequences of character codes, and the 20-column antenna names.    *)
EXTENDS Integers, Sequences
Blank == 32
NONE  == <<78, 79, 78, 69>>
Min(a, b) == IF a < b THEN a ELSE b
Cut(t, n) == SubSeq(t, 1, Min(Len(t), n))
Pad(t, n) == [k \in 1..n |-> IF k <= Len(t) THEN t[k] ELSE Blank]

\* a name: model, blank, 4-column radome that is NONE when left blank
NormName(t) ==
    LET p == Pad(Cut(t, 20), 20)
    IN  IF \A k \in 17..20 : p[k] = Blank THEN SubSeq(p, 1, 16) \o NONE ELSE p
=============================================================================
