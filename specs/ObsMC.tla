------------------------------- MODULE ObsMC -------------------------------
EXTENDS Obs, TLC, Json
CONSTANTS Scope, MaxLen, Depth
VARIABLE hist

G == 0  R == 1  E == 3
T(s) == s
ABC == <<65, 66, 67>>
A20 == <<76, 69, 73, 65, 82, 50, 53, 46, 82, 52, 32, 32, 32, 32, 32, 32, 76, 69, 73, 84>>   \* LEIAR25.R4      LEIT
TwoWords == <<65, 66, 32, 67, 68>>
Right20 == [k \in 1..20 |-> IF k < 16 THEN 32 ELSE 33 + k]
Long60 == [k \in 1..60 |-> IF k % 7 = 0 THEN 32 ELSE 64 + (k % 26)]
Base == [sys |-> 7, ver |-> 304, mk |-> <<>>, mn |-> <<>>, rn |-> <<>>, rt |-> <<>>, ant |-> <<>>, pos |-> <<>>, ecc |-> <<>>,
         clk |-> -1, first |-> <<>>, decl |-> <<>>, l |-> 0]

Names39 == <<"C1C", "L1C", "D1C", "S1C", "C1W", "S1W", "C2W", "L2W", "D2W", "S2W", "C2L", "L2L", "D2L", "S2L", "C5Q", "L5Q", "D5Q", "S5Q",
             "C1P", "L1P", "D1P", "S1P", "C2P", "L2P", "D2P", "S2P", "C2C", "L2C", "D2C", "S2C", "C3Q", "L3Q", "D3Q", "S3Q", "C7Q", "L7Q",
             "D7Q", "S7Q", "C8Q", "L8Q">>
First(n) == SubSeq(Names39, 1, n)
Last(n) == SubSeq(Names39, 41 - n, 40)
Pos1 == <<<<43711, 982100>>, <<-20, 5>>, <<46789, 999999>>>>
Ecc1 == <<<<0, 12345>>, <<0, 0>>, <<-1, 999999>>>>

Heads ==
  {[Base EXCEPT !.decl = d, !.l = l] : l \in {0, 3}, d \in
     {<<<<G, First(n)>>>> : n \in 1..40} \cup {<<<<G, First(n)>>, <<y, Last(m)>>>> : n \in {1, 12, 13, 14, 26}, m \in {1, 13, 27}, y \in {R, E, 2, 4}}
     \cup {<<<<E, <<"C1?", "L5?">>>>, <<R, First(2)>>, <<G, Last(14)>>, <<5, First(13)>>, <<6, First(26)>>>>}}
  \cup {[Base EXCEPT !.mk = mk, !.mn = mn, !.l = l, !.decl = <<<<G, First(2)>>>>] : mk \in {<<>>, ABC, TwoWords, Long60},
          mn \in {<<>>, ABC, TwoWords, A20}, l \in 0..5}
  \cup {[Base EXCEPT !.rn = rn, !.rt = rt, !.sys = sy, !.l = l, !.decl = <<<<R, First(3)>>>>] : rn \in {<<>>, ABC, TwoWords, A20, Right20},
          rt \in {ABC, TwoWords, A20, Right20}, sy \in {0, 1, 3, 7}, l \in {0, 5}}
  \cup {[Base EXCEPT !.ant = <<an, se>>, !.l = l, !.ver = v, !.decl = <<<<R, First(3)>>>>] : an \in {ABC, TwoWords, A20}, v \in {302, 304},
          se \in {<<>>, ABC, A20, Right20, [k \in 1..5 |-> 32]}, l \in {0, 1, 2, 11}}
  \cup {[Base EXCEPT !.pos = p, !.ecc = e, !.clk = c, !.first = f, !.l = l, !.decl = <<<<G, First(5)>>>>] : p \in {<<>>, Pos1},
          e \in {<<>>, Ecc1}, c \in {-1, 0, 1}, f \in {<<>>, <<0, 0>>, <<86399, 500000>>, <<-86400 * 365, 1>>}, l \in {0, 1, 4}}

\* requests against two declarations
ReqHeads == {[Base EXCEPT !.decl = <<<<G, <<"C1C", "L1C", "C2W", "L2W">>>>, <<R, <<"C1P", "C1C">>>>>>, !.l = l] : l \in {0}}
            \cup {[Base EXCEPT !.decl = <<<<R, First(14)>>, <<G, <<"C2?", "C1C">>>>>>, !.l = 2]}
PartsG == {<<G, "C1C", 4>>, <<G, "L1C", -2>>, <<G, "C2?", 3>>, <<G, "C2W", 4>>, <<R, "C1C", 4>>}
ObsG == {<<p>> : p \in PartsG} \cup {<<p, q>> : p \in PartsG, q \in {<<G, "C1C", 2>>, <<G, "L2W", 6>>, <<R, "C1P", 4>>}}
        \cup {<<<<E, "C1C", 4>>>>, <<<<G, "C1C", 2>>, <<G, "C1C", 2>>, <<G, "L1C", 1>>>>}
ObsR == {<<<<R, "C1C", 4>>>>, <<<<R, "C1P", 2>>, <<R, "C1C", 2>>>>, <<<<R, "C5X", 4>>>>, <<<<G, "C1C", 4>>>>}
SeqsUpTo(X, n) == UNION {[1..m -> X] : m \in 0..n}
Reqs == {<<<<G, os>>>> : os \in SeqsUpTo(ObsG, MaxLen)}
        \cup {<<<<G, <<o>>>>, <<R, os>>>> : o \in ObsG, os \in SeqsUpTo(ObsR, MaxLen)}
        \cup {<<>>} \cup {<<<<R, <<o>>>>>> : o \in ObsR} \cup {<<<<E, <<<<<<E, "C1C", 4>>>>>>>>, <<G, <<<<<<G, "C1C", 4>>>>>>>>>>}
Single(e) == \E k \in 1..1 : FALSE
NoEither(h, r) == "either" \notin Classes(h, r)

\* epochs
EpHeadA == [Base EXCEPT !.decl = <<<<G, <<"C1C", "L1C", "S1C">>>>, <<R, <<"C1P">>>>>>, !.l = 1]
EpHeadB == [Base EXCEPT !.decl = <<<<R, <<"C1C", "C2C">>>>>>]
V(k, j) == <<1, 20000 + k * 10 + j, 123456 + 111111 * j>>
Neg == <<1, -2, 1234>>
SatG(p, k) == [y |-> G, p |-> p, v |-> CASE k = 0 -> <<V(p, 1), V(p, 2), V(p, 3)>> [] k = 1 -> <<Missing, V(p, 2), Missing>>
                 [] k = 2 -> <<V(p, 1), Missing, Missing>> [] k = 3 -> <<Missing, Missing, Missing>> [] k = 4 -> <<<<1, 0, 0>>, Neg, <<1, 9999999, 999999>>>>]
SatR(p, k) == [y |-> R, p |-> p, v |-> IF k = 0 THEN <<V(p, 1)>> ELSE <<Missing>>]
Ep(t, u, fl, ss, l) == [t |-> t, u |-> u, fl |-> fl, n |-> 0, sats |-> ss, bad |-> "", l |-> l]
Ev(fl, n, l) == [t |-> 30, u |-> 0, fl |-> fl, n |-> n, sats |-> <<>>, bad |-> "", l |-> l]
BadEp(e, b) == [e EXCEPT !.bad = b]
EpPool == {Ep(0, 0, 0, <<SatG(1, k), SatR(9, 0)>>, 0) : k \in {0, 1}} \cup {Ep(30, 10, 1, <<SatR(24, 1), SatG(32, 2)>>, 1), Ep(86399, 9999999, 0, <<>>, 2),
            Ev(4, 2, 0), Ev(2, 0, 1)}
BadPool == {BadEp(Ep(60, 0, 0, <<SatG(5, 0), SatR(9, 0)>>, 1), b) : b \in {"mark", "date", "time", "sec", "number", "sat", "count", "nsat", "prn", "val"}}
CutPool == {BadEp(Ep(60, 0, 0, <<SatG(5, 0), SatR(9, 0)>>, 0), "cut")}
Good == Ep(90, 5000000, 0, <<SatR(1, 0), SatG(7, 0), SatG(8, 1)>>, 3)
EpFiles == SeqsUpTo(EpPool, MaxLen) \cup {<<Good, b>> : b \in BadPool \cup CutPool} \cup {<<b, Good>> : b \in BadPool} \cup {<<e, Good, e>> : e \in EpPool}
ValFiles == {<<Ep(t, u, fl, <<SatG(p, k), SatR(p, k % 2), SatG(p + 1, j)>>, l)>> : t \in {0, 86399, 86400 * 400 + 3661}, u \in {0, 1, 5000000}, fl \in {0, 1},
               p \in {1, 31}, k \in 0..4, j \in {0, 3}, l \in 0..8}
ReqSeq == {<<<<G, <<<<<<G, "C1C", 4>>>>>>>>>>,
           <<<<G, <<<<<<G, "S1C", 4>>>>, <<<<G, "C1C", 2>>, <<G, "L1C", -3>>>>>>>>, <<R, <<<<<<R, "C1P", 4>>>>>>>>>>}
ReqVal == {<<<<G, <<<<<<G, "C1C", 4>>>>, <<<<G, "L1C", 4>>>>, <<<<G, "S1C", 4>>>>>>>>, <<R, <<<<<<R, "C1P", 8>>>>>>>>>>,
           <<<<G, <<<<<<G, "L1C", 1>>, <<G, "C1C", -2>>, <<G, "L1C", 5>>>>, <<<<G, "C1C", 4>>, <<G, "S1C", 4>>>>, <<<<G, "S1C", 2>>, <<G, "L1C", 2>>>>>>>>>>}
Fields16 == {<<v, a, b>> : v \in {Missing, <<1, 0, 0>>, <<1, 0, 1>>, <<1, -1, 999999>>, <<1, 23629, 347915>>, <<1, 9999999, 999999>>, <<1, -999, 1>>}, a \in 0..9, b \in 0..9}

Kinds == {<<"load", <<1, Base, <<>>>>>>}
Calls ==
  CASE Scope = "head" -> IF hist = <<>> THEN {<<"load", <<0, h, <<>>>>>> : h \in Heads}
                         ELSE IF Len(hist) = 1 THEN {<<"head", <<>>>>} ELSE {<<"first", <<>>>>} \cup Kinds
    [] Scope = "req" -> IF hist = <<>> THEN {<<"load", <<0, h, <<>>>>>> : h \in ReqHeads}
                        ELSE {<<"request", <<r, sk>>>> : r \in Reqs, sk \in BOOLEAN}
    [] Scope \in {"epo", "move"} -> IF hist = <<>> THEN {<<"load", <<0, EpHeadA, es>>>> : es \in EpFiles}
                        ELSE IF Len(hist) = 1 THEN {<<"request", <<r, TRUE>>>> : r \in ReqSeq}
                        ELSE {<<"next", <<>>>>, <<"rewind", <<>>>>} \cup
                             (IF Scope = "move" THEN {<<"move", <<h>>>> : h \in 0..2}
                              ELSE {<<"errno", <<>>>>} \cup (IF Len(hist) = 3 THEN Kinds \cup {<<"request", <<<<>>, TRUE>>>>} ELSE {}))
    [] Scope = "val" -> IF hist = <<>> THEN {<<"load", <<0, EpHeadA, es>>>> : es \in ValFiles} \cup {<<"field", f>> : f \in Fields16}
                        ELSE IF Len(hist) = 1 /\ hist[1].op = "load" THEN {<<"request", <<r, TRUE>>>> : r \in ReqVal}
                        ELSE IF Len(hist) = 2 THEN {<<"next", <<>>>>} ELSE {}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E x \in Calls : (x[1] = "request" => NoEither(head, x[2][1])) /\ Do(x[1], x[2])
             /\ hist' = Append(hist, [op |-> x[1], a |-> x[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
=============================================================================
