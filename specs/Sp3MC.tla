------------------------------- MODULE Sp3MC -------------------------------
EXTENDS Sp3, TLC, Json
CONSTANTS Scope, MaxLen, Depth
VARIABLE hist

IGS14 == <<73, 71, 83, 49, 52>>
FIT == <<70, 73, 84>>
IGS == <<73, 71, 83>>
COD5 == <<67, 79, 68, 53>>
GPS == <<71, 80, 83>>
UTC == <<85, 84, 67>>
Base == [ver |-> 0, t |-> 0, u |-> 0, n |-> 2, crd |-> IGS14, orb |-> FIT, ag |-> IGS, ts |-> GPS, int |-> <<900, 0>>, nsat |-> 3, l |-> 0]
Day == 86400
Heads ==
  {[Base EXCEPT !.ver = v, !.t = t, !.n = n, !.l = l] : v \in {0, 1}, t \in {0, Day - 1, -3 * Day, 59 * Day + 3661, 424 * Day, 1000 * Day + 43200},
       n \in {1, 96, 9999, 1234567}, l \in {0, 1}}
  \cup {[Base EXCEPT !.crd = c, !.orb = o, !.ag = a, !.ts = s, !.ver = v] : c \in {IGS14, <<87, 71, 83, 56, 52>>, <<73, 84, 82, 70>>}, o \in {FIT, <<69, 88, 84>>, <<66, 67, 84>>},
       a \in {IGS, COD5, <<69, 83, 65>>, <<88>>}, s \in {GPS, UTC, <<71, 65, 76>>}, v \in {0, 1}}
  \cup {[Base EXCEPT !.int = i, !.nsat = m, !.ver = v, !.l = l] : i \in {<<1, 0>>, <<30, 0>>, <<300, 0>>, <<900, 0>>, <<99999, 0>>, <<0, 500000>>, <<12, 345678>>},
       m \in {1, 17, 32, 85}, v \in {0, 1}, l \in {0, 1, 2, 5}}
  \cup {[Base EXCEPT !.t = t, !.u = u, !.l = l] : t \in {0, Day - 1, 59 * Day + 3661, 17}, u \in {1, 290000, 500000, 999999, 180000, 340000}, l \in {0, 1}}
  \cup {[Base EXCEPT !.nsat = m, !.ver = 1, !.l = l] : m \in {86, 99, 100, 125, 170, 999}, l \in {0, 3}}

V(h, l) == <<h, l>>
X(k) == <<V(12345 + k, 678901), V(-20000 - k, 123456), V(7, 1 + k), V(123, 456789 - k)>>
Rec(y, p, v, fl) == [y |-> y, p |-> p, v |-> v, fl |-> fl]
R1 == Rec(0, 1, X(1), <<>>)
R2 == Rec(1, 24, X(2), <<0, 3>>)
R3 == Rec(3, 36, <<V(0, 0), V(0, 0), V(0, 0), V(999999, 999999)>>, <<>>)
Ep(t, u, rs, l) == [t |-> t, u |-> u, recs |-> rs, bad |-> "", l |-> l]
BadEp(e, b) == [e EXCEPT !.bad = b]
EpPool == {Ep(0, 0, <<R1, R2, R3>>, 0), Ep(900, 0, <<R2>>, 1), Ep(1800, 500000, <<>>, 2), Ep(86399, 0, <<R3, R1>>, 3)}
Kinds == {"mark", "date", "sat", "num", "blank", "many", "prn", "noprn", "short",
          "mark1", "long", "t0", "t1", "t2", "t3", "t4", "t5"}
BadPool == {BadEp(Ep(60, 0, <<R1, R2>>, 1), b) : b \in Kinds}
Good == Ep(90, 0, <<R2, R1>>, 3)
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
EpFiles == SeqsUpTo(EpPool, MaxLen) \cup {<<Good, b>> : b \in BadPool} \cup {<<b, Good>> : b \in BadPool} \cup {<<e, Good, e>> : e \in EpPool}

Coord == {V(0, 0), V(0, 1), V(-1, 999999), V(26559, 999999), V(42164, 172000), V(-42164, 172000), V(999999, 999999), V(-99999, 0)}
Clock == {V(0, 0), V(999999, 999999), V(999999, 0), V(999998, 999999), V(-999999, 0), V(-1, 1), V(12, 345678)}
Flags == {<<>>, <<0>>, <<1>>, <<2>>, <<3>>, <<0, 1>>, <<2, 3>>, <<0, 1, 2, 3>>, <<1, 3>>}
ValFiles ==
  {<<Ep(t, u, <<Rec(y, p, X(p), <<0, 1, 2, 3>>), Rec(y, p + 1, X(p), fl), Rec(0, 7, X(1), <<>>)>>, l)>> :
       t \in {0, 86399, 424 * Day + 3661}, u \in {0, 500000, 290000, 345678}, y \in {0, 1, 4}, p \in {1, 9, 31}, fl \in Flags, l \in 0..2}
  \cup {<<Ep(0, 0, <<Rec(0, 1, <<a, b, c, d>>, <<>>)>>, l)>> : a \in Coord, b \in Coord, c \in {V(0, 0), V(5, 5)}, d \in Clock, l \in {0, 1}}
  \cup {<<Ep(0, 0, <<Rec(0, 1, <<V(5, 5), V(-7, 5), c, d>>, f)>>, l)>> : c \in Coord, d \in Clock, f \in Flags, l \in 0..5}
  \cup {<<Ep(0, 0, <<Rec(y, p, X(p), <<>>)>>, 0)>> : y \in 0..6, p \in 1..99}

Calls ==
  CASE Scope = "head" -> IF hist = <<>> THEN {<<"load", <<0, h, <<>>, 0>>>> : h \in Heads}
                         ELSE IF Len(hist) = 1 THEN {<<"head", <<>>>>} ELSE {<<"load", <<1, Base, <<>>, 0>>>>}
    [] Scope \in {"seq", "move"} -> IF hist = <<>> THEN {<<"load", <<0, Base, es, tl>>>> : es \in EpFiles, tl \in 0..3}
                        ELSE {<<"next", <<>>>>, <<"rewind", <<>>>>} \cup
                             (IF Scope = "move" THEN {<<"move", <<h>>>> : h \in 0..2}
                              ELSE IF Len(hist) = 2 THEN {<<"errno", <<>>>>, <<"load", <<1, Base, <<>>, 0>>>>} ELSE {})
    [] Scope = "val" -> IF hist = <<>> THEN {<<"load", <<0, Base, es, 0>>>> : es \in ValFiles}
                        ELSE {<<"next", <<>>>>}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E x \in Calls : Do(x[1], x[2]) /\ hist' = Append(hist, [op |-> x[1], a |-> x[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
=============================================================================
