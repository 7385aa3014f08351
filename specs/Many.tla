-------------------------------- MODULE Many --------------------------------
(* Several users of the library at once: two readers of each kind, and two sets *)
(* of objects of the other parts.  Each is a machine of its own (the            *)
(* specification of its kind) with its own state.  A call concerns one of them; *)
(* whatever the others do, before, in between or at the same time in other      *)
(* threads, it answers as if it were alone.                                     *)
EXTENDS Integers, Sequences
VARIABLES
    a1files, a1cur,
    a2files, a2cur,
    n1recs, n1pos, n1mark, n1frame,
    n2recs, n2pos, n2mark, n2frame,
    o1head, o1eps, o1pos, o1map,
    o2head, o2eps, o2pos, o2map,
    s1head, s1eps, s1tail, s1pos,
    s2head, s2eps, s2tail, s2pos,
    b1loaded, b1recs,
    b2loaded, b2recs,
    c1code, c1obs,
    c2code, c2obs,
    t1ant, t1sant, t1sv,
    t2ant, t2sant, t2sv,
    x1text,
    x2text,
    e1fr,
    e2fr,
    out
a1v == <<a1files, a1cur>>
a2v == <<a2files, a2cur>>
n1v == <<n1recs, n1pos, n1mark, n1frame>>
n2v == <<n2recs, n2pos, n2mark, n2frame>>
o1v == <<o1head, o1eps, o1pos, o1map>>
o2v == <<o2head, o2eps, o2pos, o2map>>
s1v == <<s1head, s1eps, s1tail, s1pos>>
s2v == <<s2head, s2eps, s2tail, s2pos>>
b1v == <<b1loaded, b1recs>>
b2v == <<b2loaded, b2recs>>
c1v == <<c1code, c1obs>>
c2v == <<c2code, c2obs>>
t1v == <<t1ant, t1sant, t1sv>>
t2v == <<t2ant, t2sant, t2sv>>
x1v == <<x1text>>
x2v == <<x2text>>
e1v == <<e1fr>>
e2v == <<e2fr>>
all == <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
vars == <<all, out>>

A1 == INSTANCE Antex WITH files <- a1files, cur <- a1cur
A2 == INSTANCE Antex WITH files <- a2files, cur <- a2cur
N1 == INSTANCE Nav WITH recs <- n1recs, pos <- n1pos, mark <- n1mark, frame <- n1frame
N2 == INSTANCE Nav WITH recs <- n2recs, pos <- n2pos, mark <- n2mark, frame <- n2frame
O1 == INSTANCE Obs WITH head <- o1head, eps <- o1eps, pos <- o1pos, map <- o1map
O2 == INSTANCE Obs WITH head <- o2head, eps <- o2eps, pos <- o2pos, map <- o2map
S1 == INSTANCE Sp3 WITH head <- s1head, eps <- s1eps, tail <- s1tail, pos <- s1pos
S2 == INSTANCE Sp3 WITH head <- s2head, eps <- s2eps, tail <- s2tail, pos <- s2pos
B1 == INSTANCE Bern WITH loaded <- b1loaded, recs <- b1recs
B2 == INSTANCE Bern WITH loaded <- b2loaded, recs <- b2recs
C1 == INSTANCE Codes WITH code <- c1code, obs <- c1obs, Regs <- 1..3
C2 == INSTANCE Codes WITH code <- c2code, obs <- c2obs, Regs <- 1..3
T1 == INSTANCE Antennas WITH ant <- t1ant, sant <- t1sant, sv <- t1sv, Regs <- 1..3
T2 == INSTANCE Antennas WITH ant <- t2ant, sant <- t2sant, sv <- t2sv, Regs <- 1..3
X1 == INSTANCE Strings WITH text <- x1text
X2 == INSTANCE Strings WITH text <- x2text
E1 == INSTANCE Orbit WITH fr <- e1fr
E2 == INSTANCE Orbit WITH fr <- e2fr

Who == {"a1", "a2", "n1", "n2", "o1", "o2", "s1", "s2", "b1", "b2", "c1", "c2", "t1", "t2", "x1", "x2", "e1", "e2"}
State(w) ==
    CASE w = "a1" -> a1v
      [] w = "a2" -> a2v
      [] w = "n1" -> n1v
      [] w = "n2" -> n2v
      [] w = "o1" -> o1v
      [] w = "o2" -> o2v
      [] w = "s1" -> s1v
      [] w = "s2" -> s2v
      [] w = "b1" -> b1v
      [] w = "b2" -> b2v
      [] w = "c1" -> c1v
      [] w = "c2" -> c2v
      [] w = "t1" -> t1v
      [] w = "t2" -> t2v
      [] w = "x1" -> x1v
      [] w = "x2" -> x2v
      [] w = "e1" -> e1v
      [] w = "e2" -> e2v

Call_a1(op, a) == A1!Do(op, a) /\ UNCHANGED <<a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_a2(op, a) == A2!Do(op, a) /\ UNCHANGED <<a1v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_n1(op, a) == N1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_n2(op, a) == N2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_o1(op, a) == O1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_o2(op, a) == O2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_s1(op, a) == S1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_s2(op, a) == S2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_b1(op, a) == B1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_b2(op, a) == B2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, c1v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_c1(op, a) == C1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c2v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_c2(op, a) == C2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, t1v, t2v, x1v, x2v, e1v, e2v>>
Call_t1(op, a) == T1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t2v, x1v, x2v, e1v, e2v>>
Call_t2(op, a) == T2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, x1v, x2v, e1v, e2v>>
Call_x1(op, a) == X1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x2v, e1v, e2v>>
Call_x2(op, a) == X2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, e1v, e2v>>
Call_e1(op, a) == E1!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e2v>>
Call_e2(op, a) == E2!Do(op, a) /\ UNCHANGED <<a1v, a2v, n1v, n2v, o1v, o2v, s1v, s2v, b1v, b2v, c1v, c2v, t1v, t2v, x1v, x2v, e1v>>
On(w, op, a) ==
    \/ w = "a1" /\ Call_a1(op, a)
    \/ w = "a2" /\ Call_a2(op, a)
    \/ w = "n1" /\ Call_n1(op, a)
    \/ w = "n2" /\ Call_n2(op, a)
    \/ w = "o1" /\ Call_o1(op, a)
    \/ w = "o2" /\ Call_o2(op, a)
    \/ w = "s1" /\ Call_s1(op, a)
    \/ w = "s2" /\ Call_s2(op, a)
    \/ w = "b1" /\ Call_b1(op, a)
    \/ w = "b2" /\ Call_b2(op, a)
    \/ w = "c1" /\ Call_c1(op, a)
    \/ w = "c2" /\ Call_c2(op, a)
    \/ w = "t1" /\ Call_t1(op, a)
    \/ w = "t2" /\ Call_t2(op, a)
    \/ w = "x1" /\ Call_x1(op, a)
    \/ w = "x2" /\ Call_x2(op, a)
    \/ w = "e1" /\ Call_e1(op, a)
    \/ w = "e2" /\ Call_e2(op, a)

Init == A1!Init /\ A2!Init /\ N1!Init /\ N2!Init /\ O1!Init /\ O2!Init /\ S1!Init /\ S2!Init /\ B1!Init /\ B2!Init /\ C1!Init /\ C2!Init /\ T1!Init /\ T2!Init /\ X1!Init /\ X2!Init /\ E1!Init /\ E2!Init
Ok0 == out' = {[st |-> "ok", r |-> <<>>]}
Reset == A1!Reset /\ A2!Reset /\ N1!Reset /\ N2!Reset /\ O1!Reset /\ O2!Reset /\ S1!Reset /\ S2!Reset /\ B1!Reset /\ B2!Reset /\ C1!Reset /\ C2!Reset /\ T1!Reset /\ T2!Reset /\ X1!Reset /\ X2!Reset /\ E1!Reset /\ E2!Reset
Do(op, a) ==
    \/ op = "reset" /\ Reset
    \/ op = "on"    /\ On(a[1], a[2], a[3])
    \/ op = "par"   /\ UNCHANGED all /\ Ok0
TypeOK == A1!TypeOK /\ A2!TypeOK /\ N1!TypeOK /\ N2!TypeOK /\ O1!TypeOK /\ O2!TypeOK /\ S1!TypeOK /\ S2!TypeOK /\ B1!TypeOK /\ B2!TypeOK
=============================================================================
