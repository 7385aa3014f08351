---------------------------- MODULE KalmanTrace ----------------------------
EXTENDS Kalman, TraceUtil
VARIABLE l
Allowed(e, allowed) == IF allowed = {} THEN Alive(e) ELSE e.st = "ok" /\ \E x \in allowed : Accepts(x.r, e.r)
TInit == Init /\ l = 1
TNext == \/ /\ l <= Len(Trace)
            /\ Do(Trace[l].op, Trace[l].a)
            /\ (IF Allowed(Trace[l], out') THEN TRUE ELSE Report(Trace[l], out'))
            /\ l' = l + 1
         \/ /\ l = Len(Trace) + 1 /\ Done(Len(Trace)) /\ l' = l + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
