------------------------------- MODULE BernMC -------------------------------
EXTENDS Bern, TLC, Json
CONSTANTS Scope, MaxLen, Depth
VARIABLE hist

Day == 86400
Rec(k, s, p, c, a, z, l) == [k |-> k, s |-> s, p |-> p, c |-> c, a |-> a, z |-> z, bad |-> "", l |-> l]
Bad(r, b) == [r EXCEPT !.bad = b]
\* one satellite that changed PRN and channel, one with a gap, sensors without SVN
Pool == {Rec(0, 730, 101, 1, 0, 100, 0), Rec(0, 730, 105, -7, 100, Open, 1), Rec(0, 714, 101, 6, 200, 300, 2),
         Rec(0, 714, 102, 0, 400, Open, 3), Rec(1, 730, 107, 3, 0, Open, 1)}
BadPool == {Bad(Rec(0, 730, 101, 1, 0, 100, 0), b) : b \in {"svn", "start", "stop", "chan", "short"}}
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
Files == SeqsUpTo(Pool, MaxLen) \cup {<<b, r>> : b \in BadPool, r \in Pool} \cup {<<r, b>> : b \in BadPool, r \in Pool}
Queries == {<<s, t>> : s \in {730, 714}, t \in {-1, 0, 99, 100, 250, 300}} \cup {<<0, 0>>, <<73, 50>>}
ValFiles ==
  {<<Rec(0, s, p, c, 0, Open, l)>> : s \in {1, 9, 42, 99, 700, 801, 999}, p \in {1, 24, 101, 124, 999}, c \in -7..6, l \in 0..5}
  \cup {<<Rec(0, 730, 101, 1, a, z, l), Rec(0, 731, 102, 2, a, Open, l + 1)>> :
          a \in {0, -1, 59, 3661, 86399, 424 * Day, -3 * Day + 7}, z \in {1, 60, 3662, 86400, 425 * Day, Open}, l \in 0..5}
ValQueries(r) == {<<r.s, t>> : t \in {r.a - 1, r.a, r.a + 1, r.z - 1, r.z}} \cup {<<r.s + 1, r.a>>, <<r.s \div 10, r.a>>, <<r.p, r.a>>}

Calls ==
  CASE Scope \in {"query", "move"} ->
         IF hist = <<>> THEN {<<"load", <<0, f>>>> : f \in Files}
         ELSE {<<"query", q>> : q \in IF Scope = "move" THEN {<<730, 50>>, <<714, 250>>, <<0, 0>>} ELSE Queries} \cup
              (IF Scope = "move" THEN {<<"move", <<h>>>> : h \in 0..2}
               ELSE IF Len(hist) = 2 THEN {<<"errno", <<>>>>, <<"load", <<1, <<>>>>>>} ELSE {})
    [] Scope = "val" ->
         IF hist = <<>> THEN {<<"load", <<0, f>>>> : f \in ValFiles} ELSE {<<"query", q>> : q \in ValQueries(recs[1])}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E x \in Calls : Do(x[1], x[2]) /\ hist' = Append(hist, [op |-> x[1], a |-> x[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
=============================================================================
