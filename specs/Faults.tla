------------------------------- MODULE Faults -------------------------------
(* A text file as the lengths of its lines, and what can happen to it on the  *)
(* way to a reader: it is cut anywhere, lines are dropped, doubled, swapped,  *)
(* shortened, lengthened or put in between, characters are replaced.          *)
EXTENDS Integers, Sequences

CONSTANTS Fills, Chars, Lines   \* kinds of appended text, characters, inserted lines

VARIABLES lens, nl              \* nl: the last line is terminated
fvars == <<lens, nl>>

N == Len(lens)
Remove(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
FillLen(w) == <<1, 40, 300, 5000>>[w + 1]
LineLen(k) == <<0, 80, 20, 20000>>[k + 1]

\* the file ends behind n characters of line i
Cut(i, n)      == n <= lens[i] /\ lens' = Append(SubSeq(lens, 1, i - 1), n) /\ nl' = FALSE
Drop(i)        == lens' = Remove(lens, i) /\ UNCHANGED nl
Double(i)      == lens' = InsertAt(lens, i, lens[i]) /\ UNCHANGED nl
Swap(i)        == i < N /\ lens' = [lens EXCEPT ![i] = lens[i + 1], ![i + 1] = lens[i]] /\ UNCHANGED nl
Shorten(i, n)  == n < lens[i] /\ lens' = [lens EXCEPT ![i] = n] /\ UNCHANGED nl
Lengthen(i, w) == lens' = [lens EXCEPT ![i] = @ + FillLen(w)] /\ UNCHANGED nl
Replace(i, n, c) == n < lens[i] /\ UNCHANGED fvars
\* n columns are lost in the middle of the line: everything behind moves
Shift(i, n, m) == n + m < lens[i] /\ lens' = [lens EXCEPT ![i] = @ - m] /\ UNCHANGED nl
\* m columns are overwritten with one character
Fill(i, n, m, c) == n + m <= lens[i] /\ UNCHANGED fvars
Insert(i, k)   == lens' = InsertAt(lens, i, LineLen(k)) /\ UNCHANGED nl

Fault(f) ==
    \/ f[1] = "cut"    /\ Cut(f[2], f[3])
    \/ f[1] = "drop"   /\ Drop(f[2])
    \/ f[1] = "double" /\ Double(f[2])
    \/ f[1] = "swap"   /\ Swap(f[2])
    \/ f[1] = "short"  /\ Shorten(f[2], f[3])
    \/ f[1] = "long"   /\ Lengthen(f[2], f[3])
    \/ f[1] = "char"   /\ Replace(f[2], f[3], f[4])
    \/ f[1] = "shift"  /\ Shift(f[2], f[3], f[4])
    \/ f[1] = "fill"   /\ Fill(f[2], f[3], f[4], f[5])
    \/ f[1] = "insert" /\ Insert(f[2], f[3])

LenOK == \A i \in 1..N : lens[i] >= 0
=============================================================================
