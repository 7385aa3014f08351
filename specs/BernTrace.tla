------------------------------ MODULE BernTrace ------------------------------
EXTENDS Bern, TraceUtil
VARIABLE l
TInit == Init /\ l = 1
TNext == \/ /\ l <= Len(Trace)
            /\ Do(Trace[l].op, Trace[l].a)
            /\ Compare(Trace[l], out')
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
