------------------------------ MODULE StringsMC ------------------------------
EXTENDS Strings, TLC, Json
CONSTANTS MaxLen, Deep
VARIABLE hist
Alpha == {65, 32, 68} \cup (IF Deep THEN {100} ELSE {})
Texts == UNION {[1..n -> Alpha] : n \in 0..MaxLen} \cup {<<100, 68, 69, 101, 32>>, <<9, 65, 160, 32>>}
Stops == {-1} \cup 0..(MaxLen + 2)
F == {<<0, 1500>>, <<0, -250>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 12000>>, <<0, 0>>, <<5, 0>>, <<0, 999999999>>}
\* after a missing field nothing follows
FieldLists == {fs \in [1..3 -> F] \cup [1..1 -> F] \cup [1..4 -> {<<0, 1500>>, <<1, 0>>}] :
                 \A k \in 1..Len(fs) : fs[k][1] = 3 => \A j \in k..Len(fs) : fs[j][1] = 3}
Calls == {<<"set", <<t>>>> : t \in Texts}
         \cup {<<op, <<s>>>> : op \in {"rtrims", "rtrime", "ltrim", "empty"}, s \in Stops}
         \cup {<<"for2cpp", <<>>>>}
Calls0 == {<<"nums", <<m, fs>>>> : m \in {10, 14, 19}, fs \in FieldLists} \cup {<<"year", <<y>>>> : y \in 0..99}
MCInit == Init /\ hist = <<>>
MCNext == \E c \in (IF hist = <<>> THEN Calls \cup Calls0 ELSE Calls) :
            /\ c[1] = "set" => hist = <<>>
            /\ Do(c[1], c[2])
            /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
View == text
=============================================================================
