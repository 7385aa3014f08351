-------------------------------- MODULE Bern --------------------------------
(* A Bernese SATELLIT file is a sequence of sensor records; a query looks for *)
(* one of the microwave records of a satellite that is valid at an epoch.     *)
(* Record: [k kind (0 microwave, 1 other sensor), s SVN, p PRN, c channel,    *)
(*   a start, z stop (-1 open), bad, l layout], times in s since 2015-01-01.  *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES loaded, recs, out
vars == <<loaded, recs, out>>

Ok(r) == {[st |-> "ok", r |-> r]}
Any(S) == {[st |-> "ok", r |-> r] : r \in S}
Exc == {[st |-> "exc", r |-> <<>>]}

\* -1 would be a valid time: open ends are marked by a time that is none
Open == 2000000000
Valid(r, t) == r.a <= t /\ (r.z = Open \/ t < r.z)
Candidates(s) == {i \in 1..Len(recs) : recs[i].k = 0 /\ recs[i].bad = "" /\ recs[i].s = s}
Hits(s, t) == {i \in Candidates(s) : Valid(recs[i], t)}
Damaged == {i \in 1..Len(recs) : recs[i].k = 0 /\ recs[i].bad # ""}

Answers(s, t) == {<<0, recs[i].c, recs[i].p>> : i \in Hits(s, t)}
\* with damaged records around an error is allowed, a wrong channel is not
Result(s, t) ==
    (IF Hits(s, t) = {} THEN Ok(<<-1, 0, 0>>) ELSE Any(Answers(s, t)))
    \cup (IF Damaged = {} THEN {} ELSE Ok(<<1, 0, 0>>) \cup Exc)

Query(s, t) == UNCHANGED <<loaded, recs>> /\ out' = IF loaded THEN Result(s, t) ELSE {}
Load(how, rs) ==
    IF how = 0 THEN loaded' = TRUE /\ recs' = rs /\ out' = Ok(<<>>)
    ELSE UNCHANGED <<loaded, recs>> /\ out' = Exc
Still(r) == UNCHANGED <<loaded, recs>> /\ out' = Ok(r)

Init == loaded = FALSE /\ recs = <<>> /\ out = {}
Reset == loaded' = FALSE /\ recs' = <<>> /\ out' = Ok(<<>>)

Do(op, a) ==
    \/ op = "reset"  /\ Reset
    \/ op = "load"   /\ Load(a[1], a[2])
    \/ op = "query"  /\ Query(a[1], a[2])
    \/ op = "errno"  /\ Still(<<>>)
    \/ op = "move"   /\ Still(<<>>)
    \/ op = "damage" /\ Still(<<TRUE>>)

TypeOK == loaded \in BOOLEAN
\* whatever was asked before, the answer is a function of the file
Sound == \A o \in out : (o.st = "ok" /\ Len(o.r) = 3 /\ o.r[1] = 0) =>
             \E i \in 1..Len(recs) : recs[i].k = 0 /\ recs[i].c = o.r[2] /\ recs[i].p = o.r[3]
=============================================================================
