------------------------------ MODULE MovesMC ------------------------------
EXTENDS Moves, TLC, Json
CONSTANTS Scope, Kinds, Depth
VARIABLE hist
\* only the first free slot is used, files in order: the others are the same
Free == IF \E i \in Slots : Is(i) = "none" THEN {CHOOSE i \in Slots : Is(i) = "none" /\ \A j \in 1..i - 1 : Is(j) # "none"} ELSE {}
Live == {i \in Slots : Is(i) = "reader"}
There == {i \in Slots : Is(i) # "none"}
Opened == Cardinality({k \in 1..Len(hist) : hist[k].op = "new"})
Calls ==
    IF hist = <<>> THEN {<<"kind", <<k>>>> : k \in Kinds}
    ELSE IF Opened = 0 THEN {<<"new", <<1, f>>>> : f \in {1, 2}}
    ELSE {<<"new", <<i, Opened + 1>>>> : i \in IF Opened < 3 THEN Free ELSE {}}
         \cup {<<"movec", <<i, j>>>> : i \in Free, j \in Live}
         \cup {<<"movea", p>> : p \in {q \in There \X Live : q[1] # q[2]}}
         \cup {<<"del", <<i>>>> : i \in There}
         \cup {<<"use", <<i>>>> : i \in Live}
         \cup {<<"rewind", <<i>>>> : i \in IF HasCursor THEN Live ELSE {}}
         \cup {<<"fail", <<i>>>> : i \in IF Len(hist) = 2 THEN Free ELSE {}}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E x \in Calls : Pre(x[1], x[2]) /\ Do(x[1], x[2]) /\ hist' = Append(hist, [op |-> x[1], a |-> x[2]])
\* every behaviour ends with a look at all that is left and its destruction
Op(o, a) == [op |-> o, a |-> a]
Look(i) == IF objs'[i].is = "reader" THEN <<Op("same", <<i>>), Op("use", <<i>>)>> \o (IF HasCursor THEN <<Op("rewind", <<i>>), Op("use", <<i>>)>> ELSE <<>>) ELSE <<>>
Emit == Len(hist') = Depth => PrintT("HIST:" \o ToJson(hist' \o Look(1) \o Look(2) \o Look(3) \o <<Op("leak", <<>>)>>))
=============================================================================
