-------------------------------- MODULE Sp3 --------------------------------
(* An SP3 file is a header and a sequence of epochs; a reader is a position   *)
(* in it.                                                                     *)
(* Header: [ver 0 (c) / 1 (d), t, u start (s since 2015-01-01, us), n epochs  *)
(*   as declared, crd/orb/ag/ts texts, int <<s, us>>, nsat, l].                  *)
(* Epoch: [t, u microseconds, recs sequence of [y, p, v, fl], bad, l] with    *)
(*   v = four limbs <<hi, lo>> (hi * 10^6 + lo units of the last printed      *)
(*   digit: mm and 1e-6 us), fl = set of 0 clock event, 1 clock prediction,   *)
(*   2 manoeuvre, 3 orbit prediction.                                         *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES head, eps, tail, pos, out
vars == <<head, eps, tail, pos, out>>

Ok(r) == {[st |-> "ok", r |-> r]}
Any(S) == {[st |-> "ok", r |-> r] : r \in S}
NoHead == [ver |-> -1]
N == Len(eps)

HeadOf(h) == <<h.ver, h.t, h.u, h.n, h.crd, h.orb, h.ag, h.ts, h.int, h.nsat>>

-----------------------------------------------------------------------------
(* one record                                                                 *)
AbsentPos(r) == \E k \in 1..3 : r.v[k] = <<0, 0>>
AbsentClk(r) == r.v[4][1] >= 999999
RecOf(r) == <<r.y, r.p, r.v, AbsentPos(r), AbsentClk(r), 0 \in r.fl, 1 \in r.fl, 2 \in r.fl, 3 \in r.fl>>
Recs(e) == [k \in 1..Len(e.recs) |-> RecOf(e.recs[k])]
EpochOf(e) == <<e.t, e.u, Recs(e)>>

-----------------------------------------------------------------------------
\* the last epoch is delivered together with the end-of-file status
Next1 ==
    /\ UNCHANGED <<head, eps, tail>>
    /\ IF pos = -1 THEN pos' = -1 /\ out' = {}
       ELSE IF pos = N THEN pos' = N /\ out' = Any({<<-1, <<>>>>, <<1, <<>>>>})
       ELSE LET e == eps[pos + 1]
                last == pos + 1 = N IN
            \* a line longer than the format's: read or refused, never left out
            IF e.bad = "long" THEN pos' = -1 /\ out' = Any({<<1, <<>>>>, <<IF last THEN -1 ELSE 0, EpochOf(e)>>})
            ELSE IF e.bad # "" THEN pos' = -1 /\ out' = Ok(<<1, <<>>>>)
            \* a damaged epoch mark behind it: whose records are those?
            ELSE IF ~last /\ eps[pos + 2].bad = "mark" THEN pos' = -1 /\ out' = {}
            ELSE /\ pos' = pos + 1
                 /\ out' = IF ~last THEN Ok(<<0, EpochOf(e)>>)
                           ELSE IF tail < 2 THEN Ok(<<-1, EpochOf(e)>>)
                           \* the EOF record is missing: the file was cut
                           ELSE Any({<<-1, EpochOf(e)>>, <<1, <<>>>>})
Rewind == UNCHANGED <<head, eps, tail>> /\ pos' = (IF head = NoHead THEN -1 ELSE 0) /\ out' = Ok(<<>>)
HeadR == UNCHANGED <<head, eps, tail, pos>> /\ out' = IF head = NoHead THEN {} ELSE Ok(HeadOf(head))
Load(how, h, es, tl) ==
    IF how = 0 THEN head' = h /\ eps' = es /\ tail' = tl /\ pos' = 0 /\ out' = Ok(<<>>)
    ELSE UNCHANGED <<head, eps, tail, pos>> /\ out' = {[st |-> "exc", r |-> <<>>]}
Still(r) == UNCHANGED <<head, eps, tail, pos>> /\ out' = Ok(r)

Init == head = NoHead /\ eps = <<>> /\ tail = 0 /\ pos = -1 /\ out = {}
Reset == head' = NoHead /\ eps' = <<>> /\ tail' = 0 /\ pos' = -1 /\ out' = Ok(<<>>)

\* flags travel as sequences in traces and histories
SetOf(s) == {s[k] : k \in 1..Len(s)}
Epochs(es) == [i \in 1..Len(es) |-> [es[i] EXCEPT !.recs =
                [k \in 1..Len(es[i].recs) |-> [es[i].recs[k] EXCEPT !.fl = SetOf(@)]]]]

Do(op, a) ==
    \/ op = "reset"  /\ Reset
    \/ op = "load"   /\ Load(a[1], a[2], Epochs(a[3]), a[4])
    \/ op = "head"   /\ HeadR
    \/ op = "next"   /\ Next1
    \/ op = "rewind" /\ Rewind
    \/ op = "errno"  /\ Still(<<>>)
    \/ op = "move"   /\ Still(<<>>)
    \/ op = "damage" /\ Still(<<TRUE>>)

TypeOK == pos \in -1..N
=============================================================================
