------------------------------- MODULE Antex -------------------------------
(* An ANTEX file is a header and a sequence of antenna blocks; a reader is    *)
(* bound to at most one file and answers queries about it.                    *)
(* Receiver block  [k |-> "r", name, ser, f]                                  *)
(* Satellite block [k |-> "s", ty, sys, prn, svn, cos, from, until, f]        *)
(*   name/ser/ty/cos: character codes; svn: -1 if blank; from: <<t>>;         *)
(*   until: <<>> (for ever) or <<t>>; f: <<sys, band, north, east, up>> per   *)
(*   frequency section; bad: 0, or what is wrong with the block (1 the SVN is *)
(*   of another system, 2 no VALID FROM, 3 unreadable PRN, 4 no satellite     *)
(*   code, 5 unreadable SVN, 6 unreadable VALID FROM, 7 unreadable VALID      *)
(*   UNTIL): such a block describes no satellite at any time; 10 no name      *)
(*   line, 11.. something the offsets need is missing or unreadable: it is    *)
(*   the method line (11), the azimuth grid, the zenith grid, the number of   *)
(*   frequencies, that number (15), a section that was announced, the offsets *)
(*   of the last section, their value, its signal, or all sections (20); 21:  *)
(*   the file ends before the end of this block (which is its last).          *)
(*   Any other field only says how the block is laid out.                     *)
EXTENDS Names, FiniteSets

VARIABLES files,    \* file number -> [ok, blocks]
          cur,      \* the file the reader is bound to, 0 if none
          out
vars == <<files, cur, out>>

Ok(r) == {[st |-> "ok", r |-> r]}
Any(S) == {[st |-> "ok", r |-> r] : r \in S}
Positive == 1..99

Blocks == IF cur = 0 THEN <<>> ELSE files[cur].blocks
Pos == 1..Len(Blocks)
SerialSet(s) == \E k \in 1..Len(s) : s[k] # Blank
SerialEq(s, t) == SerialSet(s) /\ SerialSet(t) /\ Pad(Cut(s, 20), 20) = Pad(Cut(t, 20), 20)

-----------------------------------------------------------------------------
(* Receiver antennas                                                          *)
Unseen(b) == b.bad \in 1..7 \cup {10, 11}
Nameless == \E k \in Pos : Blocks[k].bad = 10
OfModel(n) == {k \in Pos : Blocks[k].k = "r" /\ Blocks[k].bad # 10 /\ NormName(Blocks[k].name) = NormName(n)}
Calibrated(n, s) == {k \in OfModel(n) : SerialEq(Blocks[k].ser, s)}
Generic(n) == {k \in OfModel(n) : ~SerialSet(Blocks[k].ser)}
Pco(k) == Blocks[k].f
\* a block without all it needs is an error, not fewer or another one's offsets
Broken(b) == b.bad \in 11..20
Unended == \E k \in Pos : Blocks[k].bad = 21
Give(k) == IF Broken(Blocks[k]) THEN {<<p, SubSeq(Pco(k), 1, i)>> : p \in Positive, i \in 0..Len(Pco(k))}
           ELSE {<<0, Pco(k)>>}

RecProper(n, s, must) ==
    IF Calibrated(n, s) # {} THEN UNION {Give(k) : k \in Calibrated(n, s)}
    ELSE IF must THEN (IF OfModel(n) = {} THEN {<<1, <<>>>>}
                       ELSE IF Generic(n) # {} THEN {<<10, <<>>>>}
                       ELSE {<<1, <<>>>>, <<10, <<>>>>})
    ELSE IF Generic(n) # {} THEN UNION {Give(k) : k \in Generic(n)}
    ELSE {<<p, <<>>>> : p \in Positive}
RecAnswer(n, s, must) == RecProper(n, s, must) \cup (IF Nameless \/ (Unended /\ Calibrated(n, s) = {})
                                                    THEN {<<p, <<>>>> : p \in Positive} ELSE {})

-----------------------------------------------------------------------------
(* Satellite antennas                                                         *)
ValidAt(b, t) == b.from[1] <= t /\ (b.until = <<>> \/ t <= b.until[1])
OfSat(y, p, t) == {k \in Pos : /\ Blocks[k].k = "s"
                               /\ ~Unseen(Blocks[k])
                               /\ Blocks[k].sys = y /\ Blocks[k].prn = p
                               /\ ValidAt(Blocks[k], t)}
First(S) == CHOOSE k \in S : \A j \in S : k <= j
SatOf(k) == LET b == Blocks[k] IN <<b.sys, b.prn, b.svn, Pad(b.ty, 20), b.cos>>
NoSat(y, p, t) == OfSat(y, p, t) = {} \/ Nameless
SatAnswer(y, p, t) ==
    (IF NoSat(y, p, t) THEN {<<n, <<>>, <<>>>> : n \in Positive} ELSE {})
    \cup (IF OfSat(y, p, t) = {} THEN {}
          ELSE LET k == First(OfSat(y, p, t)) IN {<<g[1], IF g[1] = 0 THEN SatOf(k) ELSE <<>>, g[2]>> : g \in Give(k)})
InfoAnswer(y, p, t) ==
    (IF NoSat(y, p, t) THEN {<<n, <<>>>> : n \in Positive} ELSE {})
    \cup (IF OfSat(y, p, t) = {} THEN {}
          ELSE LET k == First(OfSat(y, p, t)) IN {<<0, SatOf(k)>>})

-----------------------------------------------------------------------------
(* Actions.  Queries leave the reader as it is.                               *)
Rec(n, s, must) == UNCHANGED <<files, cur>> /\ out' = Any(RecAnswer(n, s, must = 1))
Sat(y, p, t)    == UNCHANGED <<files, cur>> /\ out' = Any(SatAnswer(y, p, t))
Info(y, p, t)   == UNCHANGED <<files, cur>> /\ out' = Any(InfoAnswer(y, p, t))

\* how: 0 a new reader, 1 the present reader is re-targeted.  A file without a
\* proper header is refused; a reader that was re-targeted to it is unbound.
Load(n, how, ok, bs) ==
    /\ files' = IF ok = 1 THEN [files EXCEPT ![n] = [ok |-> TRUE, blocks |-> bs]] ELSE files
    /\ cur' = IF ok = 1 THEN n ELSE IF how = 1 THEN 0 ELSE cur
    /\ out' = IF ok = 1 THEN Ok(<<>>) ELSE {[st |-> "exc", r |-> <<>>]}
New     == UNCHANGED files /\ cur' = 0 /\ out' = Ok(<<>>)
\* the reader is moved into a new or another object, the old one destroyed
Move(how) == UNCHANGED <<files, cur>> /\ out' = Ok(<<>>)
\* a damaged file is opened by another reader and queried: anything may come
\* back, but everything must come back
Damaged == UNCHANGED <<files, cur>> /\ out' = Ok(<<TRUE>>)

Numbers == 1..3
InitState == files = [n \in Numbers |-> [ok |-> FALSE, blocks |-> <<>>]] /\ cur = 0
Init == InitState /\ out = {}
Reset == /\ files' = [n \in Numbers |-> [ok |-> FALSE, blocks |-> <<>>]]
         /\ cur' = 0 /\ out' = Ok(<<>>)

Do(op, a) ==
    \/ op = "reset"  /\ Reset
    \/ op = "new"    /\ New
    \/ op = "load"   /\ Load(a[1], a[2], a[3], a[4])
    \/ op = "rec"    /\ Rec(a[1], a[2], a[3])
    \/ op = "sat"    /\ Sat(a[1], a[2], a[3])
    \/ op = "info"   /\ Info(a[1], a[2], a[3])
    \/ op = "move"   /\ Move(a[1])
    \/ op = "damage" /\ Damaged

-----------------------------------------------------------------------------
TypeOK == cur \in {0} \cup Numbers /\ (cur # 0 => files[cur].ok)
AnyModel == {Blocks[k].name : k \in {j \in Pos : Blocks[j].k = "r"}}
AnySer == {Blocks[k].ser : k \in {j \in Pos : Blocks[j].k = "r"}} \cup {<<>>}
\* an exact calibration is never passed over, a foreign one never used
ReceiverSound ==
    \A n \in AnyModel, s \in AnySer, m \in BOOLEAN :
      /\ RecAnswer(n, s, m) # {}
      /\ \A r \in RecAnswer(n, s, m) : (r[1] > 0 /\ \A k \in Pos : ~Broken(Blocks[k])) => r[2] = <<>>
      /\ (Calibrated(n, s) = {} /\ m) => \A r \in RecAnswer(n, s, m) : r[1] > 0
\* at most one answer, and it is valid at the epoch and of that satellite
SatelliteSound ==
    \A k \in Pos : (Blocks[k].k = "s" /\ Blocks[k].bad = 0 /\ ~Nameless /\ \A j \in Pos : ~Broken(Blocks[j])) =>
      LET b == Blocks[k] IN
      /\ \A x \in SatAnswer(b.sys, b.prn, b.from[1]) : x[1] = 0 /\ x[2][1] = b.sys /\ x[2][2] = b.prn
      /\ (\A j \in Pos : j < k => Blocks[j] # b /\ (Blocks[j].k = "s" => Blocks[j].prn # b.prn \/ Blocks[j].sys # b.sys))
           => SatAnswer(b.sys, b.prn, b.from[1]) = {<<0, SatOf(k), Pco(k)>>}
\* a block in which something is wrong is as good as none
BadUnseen ==
    \A k \in Pos : (Blocks[k].k = "s" /\ Unseen(Blocks[k])) =>
      \A x \in SatAnswer(Blocks[k].sys, Blocks[k].prn, Blocks[k].from[1]) :
         x[1] = 0 => \E j \in Pos \ {k} : Blocks[j].k = "s" /\ ~Unseen(Blocks[j]) /\ x[2] = SatOf(j)
=============================================================================
