------------------------------- MODULE Strings -------------------------------
(* Fixed-column text helpers, acting on a text register.  Texts are sequences  *)
(* of character codes without NUL; a limit of -1 means "no limit".             *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES text, out
vars == <<text, out>>

Blank == 32
Ok(r) == {[st |-> "ok", r |-> r]}
Min(a, b) == IF a < b THEN a ELSE b
\* the part of the text a call may look at
View0(t, stop) == IF stop = -1 THEN t ELSE SubSeq(t, 1, Min(Len(t), stop))

-----------------------------------------------------------------------------
FirstBlank(t) == IF \E k \in 1..Len(t) : t[k] = Blank
                 THEN CHOOSE k \in 1..Len(t) : t[k] = Blank /\ \A j \in 1..(k - 1) : t[j] # Blank
                 ELSE Len(t) + 1
LastNonBlank(t) == IF \E k \in 1..Len(t) : t[k] # Blank
                   THEN CHOOSE k \in 1..Len(t) : t[k] # Blank /\ \A j \in (k + 1)..Len(t) : t[j] = Blank
                   ELSE 0
FirstNonBlank(t) == IF \E k \in 1..Len(t) : t[k] # Blank
                    THEN CHOOSE k \in 1..Len(t) : t[k] # Blank /\ \A j \in 1..(k - 1) : t[j] = Blank
                    ELSE Len(t) + 1

TrimStart(t) == SubSeq(t, 1, FirstBlank(t) - 1)
TrimEnd(t)   == SubSeq(t, 1, LastNonBlank(t))
TrimLeft(t)  == SubSeq(t, FirstNonBlank(t), Len(t))

Set(t)        == text' = t /\ out' = Ok(<<t>>)
RtrimS(stop)  == text' = text /\ out' = LET v == View0(text, stop) IN Ok(<<TrimStart(v), FirstBlank(v) - 1>>)
RtrimE(stop)  == text' = text /\ out' = LET v == View0(text, stop) IN Ok(<<TrimEnd(v), LastNonBlank(v)>>)
Ltrim(stop)   == text' = text /\ out' = LET v == View0(text, stop) IN Ok(<<TrimLeft(v), FirstNonBlank(v) - 1>>)
IsEmpty(stop) == text' = text /\ out' = Ok(<<\A k \in 1..Len(View0(text, stop)) : text[k] = Blank>>)
ForToCpp == /\ text' = [k \in 1..Len(text) |-> IF text[k] \in {68, 100} THEN 69 ELSE text[k]]
            /\ out' = Ok(<<text'>>)

-----------------------------------------------------------------------------
(* N numbers in fields of M columns.  A field is <<kind, value>>: kind 0 is a   *)
(* number (value in thousandths), 1 a blank field, 2 a field that does not      *)
(* start with a number, 3 no field at all (the line ends before it), 4 a number *)
(* followed by other characters.  A number too large for a double is kind 5.    *)
Convertible(fs) == \A k \in 1..Len(fs) : fs[k][1] \in {0, 4}
Numbers(m, fs) ==
    /\ text' = text
    /\ out' = IF Convertible(fs) THEN Ok(<<TRUE, [k \in 1..Len(fs) |-> fs[k][2]]>>)
              ELSE Ok(<<FALSE, <<>>>>)
Year(y) == y \in 0..99 /\ text' = text /\ out' = Ok(<<IF y >= 80 THEN 1900 + y ELSE 2000 + y>>)

-----------------------------------------------------------------------------
Init == text = <<>> /\ out = {}
Reset == text' = <<>> /\ out' = Ok(<<>>)
Do(op, a) ==
    \/ op = "reset"   /\ Reset
    \/ op = "set"     /\ Set(a[1])
    \/ op = "rtrims"  /\ RtrimS(a[1])
    \/ op = "rtrime"  /\ RtrimE(a[1])
    \/ op = "ltrim"   /\ Ltrim(a[1])
    \/ op = "empty"   /\ IsEmpty(a[1])
    \/ op = "for2cpp" /\ ForToCpp
    \/ op = "nums"    /\ Numbers(a[1], a[2])
    \/ op = "year"    /\ Year(a[1])

-----------------------------------------------------------------------------
TrimIsPrefix == \A s \in {-1} \cup 0..(Len(text) + 1) :
    LET v == View0(text, s) IN
    /\ TrimStart(v) = SubSeq(text, 1, Len(TrimStart(v)))
    /\ TrimEnd(v) = SubSeq(text, 1, Len(TrimEnd(v)))
    /\ Len(TrimStart(v)) <= Len(TrimEnd(v)) \/ TrimEnd(v) = <<>>
    /\ \A k \in 1..Len(TrimStart(v)) : TrimStart(v)[k] # Blank
    /\ TrimEnd(v) = <<>> <=> TrimLeft(v) = <<>>
=============================================================================
