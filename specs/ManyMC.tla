------------------------------- MODULE ManyMC -------------------------------
(* All interleavings of the calls of a few readers, each with a program of its *)
(* own.  PROGS: one line per program, [sel, w, ops]; the programs of the same  *)
(* sel run side by side.                                                       *)
EXTENDS Many, TLC, Json, IOUtils, FiniteSets
VARIABLES sel, pc, hist
Progs == ndJsonDeserialize(IOEnv.PROGS)
Of(s) == {k \in 1..Len(Progs) : Progs[k].sel = s}
mine == Of(sel)
MCInit == /\ Init /\ hist = <<>>
          /\ sel \in {Progs[k].sel : k \in 1..Len(Progs)}
          /\ pc = [k \in Of(sel) |-> 0]
Ended == \A k \in mine : pc[k] = Len(Progs[k].ops)
Step(k) ==
    /\ pc[k] < Len(Progs[k].ops)
    /\ LET c == Progs[k].ops[pc[k] + 1] IN On(Progs[k].w, c.op, c.a)
    /\ pc' = [pc EXCEPT ![k] = @ + 1]
    /\ hist' = Append(hist, [k |-> k, i |-> pc[k]])
    /\ UNCHANGED sel
MCNext == \E k \in mine : Step(k)
Emit == (\A k \in mine : pc'[k] = Len(Progs[k].ops)) => PrintT("HIST:" \o ToJson(hist'))

\* Whatever the schedule: what a reader has become, and what it has answered
\* last, depends on its own calls only.  Register k keeps what program k has
\* been seen to do (number of calls -> state and answers).
ASSUME \A k \in 1..Len(Progs) : TLCSet(k, <<>>)
Last == hist[Len(hist)].k
Seen(k) == LET s == TLCGet(k) IN
           IF pc[k] \in DOMAIN s THEN s[pc[k]]
           ELSE LET v == <<State(Progs[k].w), out>> IN
                IF hist # <<>> /\ Last = k /\ TLCSet(k, s @@ (pc[k] :> v)) THEN v ELSE <<State(Progs[k].w), out>>
Independent == \A k \in mine :
    /\ Seen(k)[1] = State(Progs[k].w)
    /\ (hist # <<>> /\ Last = k) => Seen(k)[2] = out
=============================================================================
