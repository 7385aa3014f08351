------------------------------- MODULE NavMC -------------------------------
EXTENDS Nav, TLC, Json
CONSTANTS Scope, MaxLen, Depth
VARIABLE hist

Whole(n) == IF n = 0 THEN Zero ELSE IF n % 1000 = 0 /\ n # 0 THEN <<n \div 1000, 3>>
            ELSE IF n % 100 = 0 THEN <<n \div 100, 2>> ELSE IF n % 10 = 0 THEN <<n \div 10, 1>> ELSE <<n, 0>>
Norm(n) == LET w == Whole(n) IN IF w[1] % 10 = 0 /\ w # Zero THEN LET v == Whole(w[1]) IN <<v[1], v[2] + w[2]>> ELSE w
\* sk: the slots that have a meaning of their own; the rest is told apart by slot and id
Nums(y, id, sow, wk, he, fi) ==
  [j \in 1..Numbers(y) |->
     LET k == Slot(y, j) IN
     CASE y = R /\ k = 2 -> Norm(sow)
       [] y = R /\ k = 6 -> Norm(he)
       [] y \in {G, E, C, J, I} /\ k = 11 -> Norm(sow)
       [] y \in {G, E, C, J, I} /\ k = 21 -> Norm(wk)
       [] y \in {G, E, C, J, I} /\ k = 24 -> Norm(he)
       [] y = G /\ k = 28 -> Norm(fi)
       [] y = E /\ k = 3 -> Norm(id + 7)
       [] OTHER -> IF (k + id) % 11 = 0 THEN Zero
                   ELSE <<(IF (k + id) % 3 = 0 THEN -1 ELSE 1) * (((k + 1) * 1000 + id * 10) + 1), ((k * 5 + id) % 17) - 12>>]
\* a record with clock epoch t, reference epoch t + o
W(t) == WeekOf(t)
Rec(y, p, t, o, id, he, fi, l) ==
  LET e == t + o  w == WeekOf(e) IN
  [y |-> y, p |-> p, t |-> t, bad |-> "", l |-> l,
   d |-> Nums(y, id, e - WeekStart(w), IF y = C THEN w - 1356 ELSE w, he, fi)]
Bad(b, what) == [b EXCEPT !.bad = what]

T0 == 3600
Pool == {Rec(G, 1, T0, 0, 1, 0, 4, 0), Rec(G, 2, T0, 16, 2, 0, 4, 1), Rec(R, 1, T0, 0, 3, 0, 0, 2), Rec(E, 1, T0, 0, 4, 0, 0, 3),
         Rec(C, 7, T0, 0, 5, 1, 0, 4), Rec(J, 2, T0, 0, 6, 0, 0, 5), Rec(S, 20, T0, 0, 7, 0, 0, 6), Rec(I, 1, T0, 0, 8, 0, 0, 7)}
Small == {b \in Pool : b.y \in {G, R, E}}
SeqsUpTo(X, n) == UNION {[1..m -> X] : m \in 0..n}
Bads == {Bad(Rec(G, 1, T0, 0, 1, 0, 4, 0), "num"), Bad(Rec(R, 1, T0, 0, 3, 0, 0, 2), "date"), Bad(Rec(E, 1, T0, 0, 4, 0, 0, 3), "sys"),
         Bad(Rec(C, 7, T0, 0, 5, 1, 0, 4), "prn")}
Longs == {Bad(Rec(R, 1, T0, 0, 3, 0, 0, 0), "long"), Bad(Rec(G, 2, T0, 16, 2, 0, 4, 8), "long"), Bad(Rec(G, 1, T0, 0, 1, 0, 4, 3), "long")}
Cuts == {Bad(Rec(G, 1, T0, 0, 1, 0, 4, 0), "cut"), Bad(Rec(R, 1, T0, 0, 3, 0, 0, 2), "cut")}
A1 == Rec(G, 2, T0, 16, 2, 0, 4, 1)
SeqFiles == SeqsUpTo(Small, IF MaxLen > 2 THEN 2 ELSE 1) \cup {<<a, b>> : a \in Pool, b \in {A1}}
            \cup {<<A1, b>> : b \in Bads \cup Cuts \cup Longs} \cup {<<b, A1>> : b \in Bads \cup Longs}
            \cup (IF MaxLen > 2 THEN {<<a, b, c>> : a \in Small, b \in {A1}, c \in Pool} ELSE {})

\* field contents: reference epochs around day and week ends, all systems, all healths
Sunday == 3 * Day        \* 2015-01-04
DecRecs ==
  {Rec(y, p, t, o, id, he, fi, l) : y \in Systems, p \in {1, 32}, t \in {Sunday - 900, Sunday, Sunday + 4 * Day},
     o \in {-1800, 0, 900}, id \in {0, 5}, he \in {0, 1}, fi \in {4}, l \in {0, 3}}
  \cup {Rec(G, 9, Sunday, 0, id, he, fi, id) : id \in 0..15, he \in {0, 63}, fi \in {0, 2, 4, 6, 14}}
  \cup {Rec(y, 6, Sunday, 0, 2, he, 4, 1) : y \in {G, R, E, C}, he \in {127, 128, 255, 256, 455, 511}}
  \cup {Rec(y, 3, -11 * 365 * Day, 0, id, 0, 4, id) : y \in Systems, id \in 0..15}
  \* the first and last seconds of a week
  \cup {Rec(y, 5, Sunday, o, 2, 0, 4, 1) : y \in Systems, o \in {-2, -1, 0, 1, 16}}
Dec2 == {Rec(y, 4, T0, 0, id, 0, 4, id) : y \in Systems, id \in {1, 10}}

\* a number that cannot be read, in any field; no date; no satellite
DecBads == {Bad(Rec(y, p, T0, 0, 1, 0, 4, l), "num") : y \in Systems, p \in 1..15, l \in 0..2}
           \cup {Bad(Rec(y, p, T0, 0, 1, 0, 4, l), b) : y \in Systems, p \in 1..3, l \in 0..7, b \in {"date", "prn", "sys", "cut", "long"}}

\* records of one satellite and of others, around the epochs asked for
ValPool == {Rec(G, 1, 0, 0, 1, 0, 4, 0), Rec(G, 1, 7200, 16, 2, 1, 4, 0), Rec(G, 1, 7200, 0, 3, 0, 2, 1), Rec(G, 2, 3600, 0, 4, 0, 4, 2),
            Rec(R, 1, 900, 0, 5, 0, 0, 0), Rec(R, 1, 2700, 900, 6, 0, 0, 0), Rec(E, 1, 3600, 0, 7, 0, 0, 3),
            Rec(G, 2, 25200, 0, 8, 0, 4, 2)}
ValFiles == SeqsUpTo(ValPool, MaxLen) \cup {<<Rec(C, 1, 0, 0, 1, 0, 0, 1), Rec(C, 2, 14400, 0, 2, 0, 0, 1), Rec(J, 1, 0, 0, 1, 0, 0, 2), Rec(C, 1, 14400, 0, 3, 0, 0, 1)>>}
ValT == {<<t, 0>> : t \in {-14401, -14400, -7201, -7200, -1, 0, 899, 900, 1799, 1800, 3599, 3600, 4499, 4500, 7199, 7200, 14399, 14400, 17999, 18000, 21600}}
        \cup {<<-1, 999>>, <<1799, 999>>, <<14399, 999>>, <<14400, 1>>, <<-14401, 999>>, <<899, 1>>}
ValQ == {<<"valid", <<t, y, p>>>> : t \in ValT, y \in {G, R}, p \in {1}}
        \cup {<<"valid", <<t, G, -1>>>> : t \in {x \in ValT : x[2] = 0}}

Loads ==
  CASE Scope \in {"seq", "move"} -> {<<"load", <<0, bs>>>> : bs \in SeqFiles}
    [] Scope = "dec" -> {<<"load", <<0, <<b>>>>>> : b \in DecRecs} \cup {<<"load", <<0, <<a, b>>>>>> : a \in Dec2, b \in Dec2}
                        \cup {<<"load", <<0, <<b>>>>>> : b \in DecBads}
    [] Scope = "val" -> {<<"load", <<0, bs>>>> : bs \in ValFiles}
    [] OTHER -> {}
SeqCalls == {<<"read", <<>>>>, <<"peek", <<>>>>, <<"skip", <<>>>>, <<"rewind", <<>>>>, <<"back", <<>>>>,
        <<"find", <<G, -1>>>>, <<"find", <<G, 2>>>>, <<"find", <<R, 1>>>>}
Calls ==
  IF hist = <<>> THEN Loads
  ELSE CASE Scope = "seq" -> SeqCalls \cup (IF Len(hist) = 1 THEN {<<"load", <<1, <<>>>>>>, <<"errno", <<>>>>} ELSE {})
         [] Scope = "move" -> {<<"move", <<h>>>> : h \in 0..2} \cup {<<"read", <<>>>>, <<"rewind", <<>>>>, <<"find", <<G, 2>>>>}
         [] Scope = "dec" -> IF Len(hist) % 2 = 1 THEN {<<"read", <<>>>>} ELSE {<<"attr", <<>>>>}
         [] Scope = "val" -> ValQ \cup (IF Depth > 2 /\ Len(hist) > 1 THEN {<<"back", <<>>>>} ELSE {})
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E c \in Calls : Do(c[1], c[2]) /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
=============================================================================
