-------------------------------- MODULE Obs --------------------------------
(* A RINEX 3 observation file is a header and a sequence of epochs; a reader  *)
(* is a position in it and a resolved request.                                *)
(* Header: [sys, ver (in hundredths), texts mk/mn/rn/rt, ant <<>> or          *)
(*   <<name, serial>>, pos/ecc sequences of 3 numbers (1e-4 m) or <<>>,       *)
(*   clk -1/0/1, first <<>> or <<t, u>>, decl sequence of <<y, codes>>, l].   *)
(* Epoch: [t seconds since 2015-01-01, u ticks of 1e-7 s, fl flag,            *)
(*   n number of special records, sats sequence of [y, p, v], bad, l].        *)
(* Numbers that may be large are limbs <<hi, lo>> = hi * 10^6 + lo, 0 <= lo.  *)
(* A value is <<1, hi, lo>> in units of 0.00025 or Missing.                   *)
EXTENDS Integers, Sequences, FiniteSets, Names

VARIABLES head, eps, pos, map, out
vars == <<head, eps, pos, map, out>>

Ok(r) == {[st |-> "ok", r |-> r]}
Any(S) == {[st |-> "ok", r |-> r] : r \in S}
Mega == 1000000
Limbs(h, l) == <<h + (l \div Mega), l % Mega>>
Missing == <<0, 0, 0>>
Lost == pos = -1
NoHead == [sys |-> -1]

-----------------------------------------------------------------------------
(* Header                                                                     *)
HasSerialText(s) == \E k \in 1..Min(Len(s), 20) : s[k] # Blank
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 32 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Zero2 == <<0, 0>>
Vec(v) == IF v = <<>> THEN <<Zero2, Zero2, Zero2>> ELSE v
AntName(h) == IF h.ant = <<>> THEN Pad(<<>>, 20) ELSE NormName(h.ant[1])
AntSerial(h) == h.ant # <<>> /\ HasSerialText(h.ant[2])
Max(S) == CHOOSE x \in S \cup {0} : \A y \in S : y <= x
MaxObs(h) == Max({Len(h.decl[k][2]) : k \in 1..Len(h.decl)})
Declared(h, y) == \E k \in 1..Len(h.decl) : h.decl[k][1] = y
Codes(h, y) == h.decl[CHOOSE k \in 1..Len(h.decl) : h.decl[k][1] = y][2]
SeqOf(S, F(_)) ==     \* elements of a set of numbers 0..7 in order
    LET RECURSIVE G(_)
        G(n) == IF n > 7 THEN <<>> ELSE (IF n \in S THEN <<F(n)>> ELSE <<>>) \o G(n + 1)
    IN G(0)
DeclSeq(h) == LET F(y) == <<y, Codes(h, y)>> IN SeqOf({h.decl[k][1] : k \in 1..Len(h.decl)}, F)
HeadOf(h) == <<h.sys, h.ver, Trim(h.mk), Trim(h.mn), Trim(h.rn), Trim(h.rt),
               AntName(h), AntSerial(h), Vec(h.pos), Vec(h.ecc), h.clk = 1, MaxObs(h), DeclSeq(h)>>

-----------------------------------------------------------------------------
(* Requests: sequence of <<y, sequence of observables>>, an observable is a   *)
(* sequence of parts <<y, code, k>>, k the coefficient in quarters.            *)
Miss(h, p) == ~Declared(h, p[1]) \/ ~\E i \in 1..Len(Codes(h, p[1])) : Codes(h, p[1])[i] = p[2]
ColOf(h, p) == LET X == Codes(h, p[1]) IN
    CHOOSE i \in 1..Len(X) : X[i] = p[2] /\ \A j \in 1..i - 1 : X[j] # p[2]
Mixed(o) == \E i, j \in 1..Len(o) : o[i][1] # o[j][1]
Class(h, y, o) ==
    LET gone == \E i \in 1..Len(o) : Miss(h, o[i])
        bad == Mixed(o) \/ o[1][1] # y
    IN IF bad /\ gone /\ o[1][1] = y THEN "either" ELSE IF bad THEN "bad" ELSE IF gone THEN "miss" ELSE "ok"
Resolved(h, o) == [i \in 1..Len(o) |-> <<ColOf(h, o[i]), o[i][3]>>]
RECURSIVE Pick(_, _, _)
Pick(h, y, os) == IF os = <<>> THEN <<>>
    ELSE (IF Class(h, y, os[1]) = "ok" THEN <<os[1]>> ELSE <<>>) \o Pick(h, y, Tail(os))
Served(h, req) == LET Y == {k \in 1..Len(req) : Pick(h, req[k][1], req[k][2]) # <<>>}
                      F(y) == LET k == CHOOSE k \in Y : req[k][1] = y IN <<y, Pick(h, y, req[k][2])>>
                  IN SeqOf({req[k][1] : k \in Y}, F)
MapOf(h, served) == [k \in 1..Len(served) |->
     <<served[k][1], [i \in 1..Len(served[k][2]) |-> Resolved(h, served[k][2][i])]>>]
Classes(h, req) == UNION {{Class(h, req[k][1], req[k][2][i]) : i \in 1..Len(req[k][2])} : k \in 1..Len(req)}
\* what the caller sees: the resolved map and the observables that remain
Answer(h, served) == <<MapOf(h, served), served>>
Request(req, skip) ==
    /\ UNCHANGED <<head, eps, pos>>
    /\ IF head = NoHead THEN map' = <<>> /\ out' = {}
       ELSE LET cs == Classes(head, req)
                full == Answer(head, Served(head, req))
                none == <<<<>>, <<>>>>
            IN IF "bad" \in cs \/ (~skip /\ cs \cap {"miss", "either"} # {})
               THEN map' = <<>> /\ out' = Ok(none)
               ELSE IF "either" \in cs
               \* may be dropped or refused: refuse to go on from here
               THEN map' = <<>> /\ out' = Any({none, full})
               ELSE map' = full[1] /\ out' = Ok(full)

-----------------------------------------------------------------------------
(* Epochs                                                                     *)
N == Len(eps)
RECURSIVE Sum(_, _, _)
Sum(v, o, i) == IF i > Len(o) THEN <<0, 0>>
                ELSE LET s == Sum(v, o, i + 1) x == v[o[i][1]] IN
                     Limbs(s[1] + o[i][2] * x[2], s[2] + o[i][2] * x[3])
Observable(v, o) == IF \E i \in 1..Len(o) : v[o[i][1]] = Missing THEN Missing
                    ELSE LET s == Sum(v, o, 1) IN <<1, s[1], s[2]>>
Row(m, y) == m[CHOOSE k \in 1..Len(m) : m[k][1] = y][2]
Wanted(m, y) == \E k \in 1..Len(m) : m[k][1] = y
RECURSIVE Sats(_, _)
Sats(m, ss) == IF ss = <<>> THEN <<>>
    ELSE LET s == ss[1] IN
         (IF Wanted(m, s.y)
          THEN <<<<s.y, s.p, [i \in 1..Len(Row(m, s.y)) |-> Observable(s.v, Row(m, s.y)[i])]>>>>
          ELSE <<>>) \o Sats(m, Tail(ss))
Event(e) == e.fl > 1
\* the next epoch behind position p that is not a special event; N + 1 if none
NextEpoch(p) == LET S == {k \in p + 1..N : ~Event(eps[k]) \/ eps[k].bad # ""} IN
                IF S = {} THEN N + 1 ELSE CHOOSE k \in S : \A j \in S : k <= j
\* "val", "half", "prn": of the first satellite, only seen if it is wanted: no number in
\* any of its fields, a line that ends within the last field, no satellite number
Cut1(e) == LET s == e.sats[1] IN
    [e EXCEPT !.sats[1].v = [i \in 1..Len(s.v) |-> IF e.bad = "val" \/ i = Len(s.v) THEN Missing ELSE s.v[i]]]
Refused == <<1, <<>>>>
Given(e) == <<0, <<e.t, e.u, Sats(map, e.sats)>>>>
Soft(e) == IF e.bad = "prn" THEN (IF Wanted(map, e.sats[1].y) THEN {Refused} ELSE {Refused, Given(e)})
           ELSE {Refused, Given(Cut1(e))}
Fatal(e) == e.bad \in {"mark", "date", "time", "sec", "number", "sat", "count", "cut", "nsat"}
Next1 ==
    /\ UNCHANGED <<head, eps, map>>
    /\ IF Lost THEN pos' = -1 /\ out' = {}
       ELSE LET k == NextEpoch(pos) IN
            IF k > N THEN pos' = N /\ out' = Ok(<<-1, <<>>>>)
            ELSE LET e == eps[k] IN
                 IF Fatal(e) THEN pos' = -1 /\ out' = Ok(<<1, <<>>>>)
                 ELSE IF e.bad # "" THEN pos' = -1 /\ out' = Any(Soft(e))
                 ELSE pos' = k /\ out' = Ok(Given(e))
Rewind == UNCHANGED <<head, eps, map>> /\ pos' = (IF head = NoHead THEN -1 ELSE 0) /\ out' = Ok(<<>>)
HeadQ == UNCHANGED <<head, eps, pos, map>> /\ out' = IF head = NoHead THEN {} ELSE Ok(HeadOf(head))
FirstQ == UNCHANGED <<head, eps, pos, map>>
          /\ out' = IF head = NoHead THEN {} ELSE IF head.first = <<>> THEN {} ELSE Ok(head.first)

\* one observation field on its own: value or Missing, and its two indicators
Field(v, lli, ssi) == UNCHANGED <<head, eps, pos, map>>
    /\ out' = IF v = Missing THEN Ok(<<0, v, 0, 0>>) ELSE Ok(<<0, <<1, Limbs(4 * v[2], 4 * v[3])[1], Limbs(4 * v[2], 4 * v[3])[2]>>, lli, ssi>>)

Load(how, h, es) ==
    IF how = 0 THEN head' = h /\ eps' = es /\ pos' = 0 /\ map' = <<>> /\ out' = Ok(<<>>)
    ELSE UNCHANGED <<head, eps, pos, map>> /\ out' = {[st |-> "exc", r |-> <<>>]}
Move(how) == UNCHANGED <<head, eps, pos, map>> /\ out' = Ok(<<>>)
Touch == UNCHANGED <<head, eps, pos, map>> /\ out' = Ok(<<>>)
Damaged == UNCHANGED <<head, eps, pos, map>> /\ out' = Ok(<<TRUE>>)

Init == head = NoHead /\ eps = <<>> /\ pos = -1 /\ map = <<>> /\ out = {}
Reset == head' = NoHead /\ eps' = <<>> /\ pos' = -1 /\ map' = <<>> /\ out' = Ok(<<>>)

Do(op, a) ==
    \/ op = "reset"   /\ Reset
    \/ op = "load"    /\ Load(a[1], a[2], a[3])
    \/ op = "head"    /\ HeadQ
    \/ op = "first"   /\ FirstQ
    \/ op = "request" /\ Request(a[1], a[2])
    \/ op = "next"    /\ Next1
    \/ op = "rewind"  /\ Rewind
    \/ op = "field"   /\ Field(a[1], a[2], a[3])
    \/ op = "errno"   /\ Touch
    \/ op = "move"    /\ Move(a[1])
    \/ op = "damage"  /\ Damaged

-----------------------------------------------------------------------------
TypeOK == pos \in -1..N
\* every column of the resolved map is a declared one of the same code
MapSound == head # NoHead => \A k \in 1..Len(map) :
    /\ Declared(head, map[k][1])
    /\ \A i \in 1..Len(map[k][2]) : \A j \in 1..Len(map[k][2][i]) :
          map[k][2][i][j][1] \in 1..Len(Codes(head, map[k][1]))
=============================================================================
