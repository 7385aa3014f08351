------------------------------- MODULE Moves -------------------------------
(* Reader objects and the files they own.  Slots hold no object, a moved-from *)
(* object, or a reader [f file, pos records read so far].  Every file has     *)
(* Len records; the n-th record of file f is told apart by <<f, n>>.          *)
(* kind 0 Antex, 1 NavigationRnx, 2 ObservationRnx, 3 Sp3c, 4 BernSatellit;   *)
(* Antex and BernSatellit answer queries and have no cursor of their own.     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES kind, objs, out
vars == <<kind, objs, out>>

Slots == 1..3
FileLen == <<2, 3, 1>>
Files == 1..3
None == [is |-> "none", f |-> 0, pos |-> 0]
Moved == [is |-> "moved", f |-> 0, pos |-> 0]
Reader(f, p) == [is |-> "reader", f |-> f, pos |-> p]
Is(i) == objs[i].is
HasCursor == kind \in {1, 2, 3}

Ok(r) == {[st |-> "ok", r |-> r]}

Kind(k) == kind' = k /\ objs' = [i \in Slots |-> None] /\ out' = Ok(<<>>)
New(i, f) == UNCHANGED kind /\ objs' = [objs EXCEPT ![i] = Reader(f, 0)] /\ out' = Ok(<<>>)
\* a constructor that throws leaves no object behind
Fail(i) == UNCHANGED <<kind, objs>> /\ out' = {[st |-> "exc", r |-> <<>>]}
\* a new object in slot i (one that was there is destroyed afterwards)
MoveC(i, j) == UNCHANGED kind /\ objs' = [objs EXCEPT ![i] = objs[j], ![j] = Moved] /\ out' = Ok(<<>>)
\* what the object in slot i owned is released
MoveA(i, j) == UNCHANGED kind /\ objs' = [objs EXCEPT ![i] = objs[j], ![j] = Moved] /\ out' = Ok(<<>>)
Del(i) == UNCHANGED kind /\ objs' = [objs EXCEPT ![i] = None] /\ out' = Ok(<<>>)
Rewind(i) == UNCHANGED kind /\ objs' = [objs EXCEPT ![i].pos = 0] /\ out' = Ok(<<>>)

\* the last epoch of an SP3 file comes together with the end-of-file status
Answer(o) ==
    IF ~HasCursor THEN <<0, o.f, 1>>
    ELSE IF o.pos < FileLen[o.f] THEN <<IF kind = 3 /\ o.pos + 1 = FileLen[o.f] THEN -1 ELSE 0, o.f, o.pos + 1>>
    ELSE <<IF kind = 3 THEN 1 ELSE -1, 0, 0>>
Use(i) ==
    /\ UNCHANGED kind
    /\ objs' = IF HasCursor /\ objs[i].pos < FileLen[objs[i].f] THEN [objs EXCEPT ![i].pos = @ + 1] ELSE objs
    /\ out' = Ok(Answer(objs[i]))
\* everything the object knows besides its cursor is that of a fresh reader of the file
Same(i) == UNCHANGED <<kind, objs>> /\ out' = Ok(<<TRUE>>)
\* all objects are destroyed: nothing they allocated is left
Leak == UNCHANGED kind /\ objs' = [i \in Slots |-> None] /\ out' = Ok(<<0>>)

Init == kind = 0 /\ objs = [i \in Slots |-> None] /\ out = {}
Reset == kind' = 0 /\ objs' = [i \in Slots |-> None] /\ out' = Ok(<<>>)

Pre(op, a) ==
    CASE op \in {"new", "fail"} -> Is(a[1]) = "none"
      [] op = "movec" -> a[1] # a[2] /\ Is(a[1]) = "none" /\ Is(a[2]) = "reader"
      [] op = "movea" -> a[1] # a[2] /\ Is(a[1]) # "none" /\ Is(a[2]) = "reader"
      [] op = "del" -> Is(a[1]) # "none"
      [] op \in {"use", "same"} -> Is(a[1]) = "reader"
      [] op = "rewind" -> Is(a[1]) = "reader" /\ HasCursor
      [] OTHER -> TRUE

Do(op, a) ==
    \/ op = "reset"  /\ Reset
    \/ op = "kind"   /\ Kind(a[1])
    \/ op = "new"    /\ New(a[1], a[2])
    \/ op = "fail"   /\ Fail(a[1])
    \/ op = "movec"  /\ MoveC(a[1], a[2])
    \/ op = "movea"  /\ MoveA(a[1], a[2])
    \/ op = "del"    /\ Del(a[1])
    \/ op = "use"    /\ Use(a[1])
    \/ op = "same"   /\ Same(a[1])
    \/ op = "rewind" /\ Rewind(a[1])
    \/ op = "leak"   /\ Leak

TypeOK == \A i \in Slots : objs[i] \in {None, Moved} \cup {Reader(f, p) : f \in Files, p \in 0..3}
\* a reader is never in two places: as many readers as files opened minus released
Bound == \A i \in Slots : objs[i].is = "reader" => objs[i].pos <= FileLen[objs[i].f]
=============================================================================
