----------------------------- MODULE AntennasMC -----------------------------
(* Exhaustive exploration with small constants; every explored transition is  *)
(* emitted as a history (path to the state + the call).                       *)
EXTENDS Antennas, TLC, Json
CONSTANTS Scope, Deep, Depth
VARIABLE hist

T(n) == [k \in 1..n |-> 64 + k]                       \* n distinct letters
WithBlanks(t, B) == [k \in 1..Len(t) |-> IF k \in B THEN Blank ELSE t[k]]
Digs(n, d) == [k \in 1..n |-> 48 + ((k + d) % 10)]

NameTexts == IF Scope = "names"
             THEN {WithBlanks(T(n), B) : n \in 0..23, B \in SUBSET (16..21)}
                  \cup {WithBlanks(T(n), {1}) : n \in 0..45}
             ELSE {WithBlanks(T(20), 9..16), WithBlanks(T(20), 9..17)}
                  \cup (IF Deep THEN {T(8), T(8) \o WithBlanks(T(8), 1..8) \o NONE} ELSE {})
Serials == {<<>>, <<49>>, <<32, 49>>, <<49, 50>>, Digs(20, 0)}
           \cup (IF Deep THEN {<<32, 32>>, Digs(19, 0), <<49, 32>>} ELSE {})
SerialQueries == Serials \cup {<<49, 32>>, <<49, 50, 51>>, <<50>>, Digs(20, 0) \o <<65>>, Digs(19, 0), Digs(21, 1), <<32>>}
SatTexts == {T(n) : n \in {0, 1, 5, 19, 20, 21, 30}} \cup {WithBlanks(T(20), 20..20), WithBlanks(T(9), 8..9)}

R2 == {1, 2}
Calls ==
  CASE Scope = "names" ->
         {<<"make", <<1, t, h>>>> : t \in NameTexts, h \in {0, 1}} \cup {<<"new", <<1>>>>}
         \cup {<<"name", <<1>>>>, <<"has", <<1>>>>}
    [] Scope = "serials" ->
         {<<"make", <<r, t, 0>>>> : r \in R2, t \in NameTexts} \cup {<<"new", <<1>>>>}
         \cup {<<"setser", <<r, t>>>> : r \in R2, t \in Serials}
         \cup {<<"copy", <<1, 2>>>>, <<"copy", <<2, 1>>>>, <<"copy", <<1, 1>>>>}
         \cup {<<op, <<r>>>> : op \in {"name", "has"}, r \in R2}
         \cup {<<op, <<r, q>>>> : op \in {"model", "same"}, r \in R2, q \in R2}
         \cup {<<"cmpser", <<1, t>>>> : t \in SerialQueries}
    [] Scope = "satant" ->
         {<<op, <<1, t>>>> : op \in {"smake", "sset"}, t \in SatTexts}
         \cup {<<"sset", <<2, t>>>> : t \in {T(3), T(20)}}
         \cup {<<"snew", <<1>>>>, <<"scopy", <<1, 2>>>>, <<"scopy", <<2, 1>>>>}
         \cup {<<"sis", <<1, t>>>> : t \in SatTexts} \cup {<<"sstr", <<r>>>> : r \in R2}
    [] Scope = "sats" ->
         {<<"vnew", <<1>>>>, <<"vcopy", <<2, 1>>>>, <<"vcopy", <<1, 2>>>>}
         \cup {<<"vnew1", <<1, s>>>> : s \in 0..7}
         \cup {<<"vnew2", <<1, s, p>>>> : s \in (IF Deep THEN 0..7 ELSE {0, 5}), p \in {0, 7, 10, 32, 120}}
         \cup {<<"vsys", <<1, s>>>> : s \in {1, 4}} \cup {<<"vprn", <<1, p>>>> : p \in {3, 99}}
         \cup {<<"vsvn", <<1, p>>>> : p \in {4, 45, 730, 1000}}
         \cup {<<"vant", <<1, t>>>> : t \in {T(9), T(25)}}
         \cup {<<"vcospar", <<1, t>>>> : t \in {T(9)}}
         \cup {<<op, <<r>>>> : op \in {"vget", "vstr", "vlong"}, r \in R2}

MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E c \in Calls : Do(c[1], c[2]) /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
View == <<ant, sant, sv>>
\* setting a serial makes comparison with that very text succeed
SetThenCompare == [][\A c \in Calls : c[1] = "setser" /\ Do(c[1], c[2]) => SerialIs(ant'[c[2][1]], c[2][2])]_<<vars>>
=============================================================================
