------------------------------ MODULE AntexMC ------------------------------
EXTENDS Antex, TLC, Json
CONSTANTS Scope, MaxLen, Depth
VARIABLE hist

\* "TRM59800.00     SCIS", "TRM59800.00     NONE", "ASH701945E_M    SCIS" ...
A == <<84,82,77,53,57,56,48,48,46,48,48,32,32,32,32,32,83,67,73,83>>
B == <<84,82,77,53,57,56,48,48,46,48,48>>                    \* radome blank
C == <<84,82,77,53,57,56,48,48,46,48,49,32,32,32,32,32,83,67,73,83>>
S1 == <<53,50,49,48>>                                        \* 5210
S2 == <<53,50,49,48,56>>                                     \* 52108
S3 == <<55>>                                                 \* 7
BLK == <<66,76,79,67,75,32,73,73,65>>                        \* BLOCK IIA
GLO == <<71,76,79,78,65,83,83,45,77>>

F(x) == << <<0, 1, x, x + 1, x + 2>>, <<0, 2, x + 10, 0, 0 - x>> >>
R(n, s, x, d) == [k |-> "r", name |-> n, ser |-> s, f |-> F(x), bad |-> 0, d |-> d]
S(y, p, v, c, fr, un, x, d) == [k |-> "s", ty |-> IF y = 0 THEN BLK ELSE GLO, sys |-> y, prn |-> p, svn |-> v,
                                cos |-> c, from |-> <<fr>>, until |-> un, f |-> F(x), bad |-> 0, d |-> d]
COS == <<49,57,57,50,45,48,55,57,65>>                         \* 1992-079A

RBlocks == {R(A, <<>>, 100, 0), R(A, S1, 200, 1), R(A, S2, 300, 2), R(B, <<>>, 400, 3), R(B, S1, 500, 4), R(A, S3, 550, 2),
            S(0, 1, 32, COS, 0, <<>>, 600, 0)}
SBlocks == {S(0, 1, 32, COS, 0, <<99>>, 100, 0), S(0, 1, 49, <<>>, 100, <<>>, 200, 1), S(0, 1, -1, <<>>, 50, <<150>>, 300, 2),
            S(0, 2, 13, COS, 0, <<>>, 400, 3), S(1, 1, 730, COS, 0, <<>>, 500, 4), S(1, 2, -1, <<>>, -100, <<50>>, 600, 5),
            R(A, <<>>, 700, 0), [S(0, 1, 61, COS, 0, <<99>>, 800, 0) EXCEPT !.bad = 1],
            [S(0, 1, 62, COS, 0, <<>>, 900, 1) EXCEPT !.bad = 2]}
Freqs == {<<>>, << <<0, 1, 5, -5, 12345>> >>, F(10), << <<1, 1, 1, 2, 3>>, <<1, 2, 4, 5, 6>>, <<3, 5, 7, 8, 9>> >>,
          << <<0, 1, 0, 0, 0>>, <<0, 1, 1, 1, 1>>, <<4, 7, -99999, 99999, 1>>, <<5, 6, 1, 0, 1>> >>}
PBlocks == {[R(A, <<>>, 0, d) EXCEPT !.f = f] : f \in Freqs, d \in 0..11}
           \cup {[S(0, 1, 32, COS, 0, <<>>, 0, d) EXCEPT !.f = f] : f \in Freqs \ {<<>>}, d \in 0..11}
\* a block in which something is missing, a good one around it or not
MBlocks == {[R(A, <<>>, 0, d) EXCEPT !.bad = e, !.f = f] : f \in Freqs \ {<<>>}, d \in {0, 1, 7, 11}, e \in {0, 10} \cup (12..20)}
           \cup {[S(0, 1, 32, COS, 0, <<>>, 0, d) EXCEPT !.bad = e, !.f = F(20)] : d \in {0, 1}, e \in 10..20}
           \cup {[R(A, <<>>, 0, 3) EXCEPT !.bad = 11]}
GBlocks == {R(A, S1, 100, 0), R(C, <<>>, 200, 5), S(0, 1, 33, COS, 0, <<>>, 300, 2)}
SeqsUpTo(X, n) == UNION {[1..m -> X] : m \in 0..n}
HFiles == {<<>>, <<R(A, <<>>, 100, 0), S(0, 1, 32, COS, 0, <<99>>, 600, 0), S(0, 1, 49, <<>>, 100, <<>>, 700, 1)>>,
           <<S(0, 1, 13, <<>>, 0, <<>>, 800, 2), R(A, S1, 200, 1), R(A, <<>>, 300, 3)>>,
           <<R(A, <<>>, 500, 1), R(A, S1, 900, 3)>>, <<R(B, <<>>, 400, 2)>>,
           <<R(A, S1, 250, 0), S(0, 1, 32, COS, 0, <<99>>, 650, 0), [R(C, S1, 350, 1) EXCEPT !.bad = 21]>>}

Loads ==
  CASE Scope = "rec" -> {<<"load", <<1, 0, 1, bs>>>> : bs \in SeqsUpTo(RBlocks, MaxLen)}
    [] Scope = "sat" -> {<<"load", <<1, 0, 1, bs>>>> : bs \in SeqsUpTo(SBlocks, MaxLen)}
    [] Scope = "pco" -> {<<"load", <<1, 0, 1, <<b>>>>>> : b \in PBlocks}
                        \cup {<<"load", <<1, 0, 1, <<b, c>>>>>> :
                                 b \in {x \in PBlocks : x.d % 4 = 1}, c \in {x \in PBlocks : x.d % 5 = 2 /\ x.f # <<>>}}
                        \cup {<<"load", <<1, 0, 1, q>>>> : q \in UNION {{<<m>>, <<m, g>>, <<g, m>>} : m \in MBlocks, g \in GBlocks}}
    [] OTHER -> {<<"load", <<1, h, 1, bs>>>> : h \in {0, 1}, bs \in HFiles}
                \cup {<<"load", <<2, h, 0, <<>>>>>> : h \in {0, 1}}

RecQ == {<<"rec", <<n, s, m>>>> : n \in {A, B, C}, s \in {<<>>, S1, S2, S3, Cut(S1, 3)}, m \in {0, 1}}
SatQ == {<<"sat", <<y, p, t>>>> : y \in {0, 1}, p \in {1, 2}, t \in {-101, -1, 0, 50, 51, 99, 100, 150, 151}}
Queries ==
  CASE Scope = "rec" -> RecQ
    [] Scope = "sat" -> SatQ \cup {<<"info", q[2]>> : q \in SatQ}
    [] Scope = "pco" -> {<<"rec", <<A, <<>>, 0>>>>, <<"sat", <<0, 1, 5>>>>, <<"rec", <<C, <<>>, 0>>>>}
    [] OTHER -> {<<"rec", <<A, <<>>, 0>>>>, <<"rec", <<A, S1, 1>>>>, <<"rec", <<C, <<>>, 0>>>>,
                 <<"sat", <<0, 1, 50>>>>, <<"sat", <<0, 1, 100>>>>, <<"sat", <<0, 7, 50>>>>, <<"info", <<0, 1, 50>>>>}
                \cup (IF Scope = "move" THEN {<<"move", <<h>>>> : h \in 0..3} ELSE {})

Calls == IF Scope \in {"hist", "move"} THEN (IF hist = <<>> THEN Loads \cup {<<"new", <<>>>>} ELSE Loads \cup Queries)
         ELSE IF hist = <<>> THEN Loads ELSE Queries
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E c \in Calls : Do(c[1], c[2]) /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == PrintT("HIST:" \o ToJson(hist'))
=============================================================================
