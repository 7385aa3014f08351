----------------------------- MODULE TraceUtil -----------------------------
(* Reading a recorded trace and comparing each recorded result with the set *)
(* of results the specification allows.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

(* allowed = {} means: the specification leaves this result open, as long    *)
(* as the call returns at all.                                               *)
Alive(e) == e.st \notin {"crash", "hang", "terminate"}
Matches(allowed, e) ==
    IF allowed = {} THEN Alive(e)
    ELSE \E x \in allowed : x.st = e.st /\ (x.st = "ok" => ToJson(x.r) = ToJson(e.r))

Report(e, allowed) ==
    PrintT("MISMATCH:" \o ToJson([s |-> e.s, i |-> e.i, op |-> e.op, exp |-> allowed,
                                  got |-> [st |-> e.st, r |-> e.r]]))

Compare(e, allowed) == IF Matches(allowed, e) THEN TRUE ELSE Report(e, allowed)
Done(n) == PrintT("DONE:" \o ToString(n))
=============================================================================
