-------------------------------- MODULE Nav --------------------------------
(* A RINEX 3 navigation file is a header and a sequence of records, a reader  *)
(* is a position in it.  Record: [y, p, t, d, bad, l]                         *)
(*   y system number (0 G, 1 R, 2 S, 3 E, 4 C, 5 J, 6 I), p PRN,              *)
(*   t clock epoch (seconds since 2015-01-01), d broadcast numbers in the     *)
(*   order of the record, each <<m, e>> = m * 10^e with m not a multiple of   *)
(*   10 (zero is <<0, 0>>), bad: "" or what is wrong with it, l: layout only. *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES recs,     \* records of the open file
          pos,      \* number of records already delivered or passed; -1: lost
          mark,     \* position before the last search; -1 none (start of file)
          frame,    \* what the caller's frame holds; <<>>: unspecified
          out
vars == <<recs, pos, mark, frame, out>>

Ok(r) == {[st |-> "ok", r |-> r]}
Any(S) == {[st |-> "ok", r |-> r] : r \in S}
Lost == pos = -1
Zero == <<0, 0>>
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN 1 ELSE 10 * Ten(n - 1)
IntOf(v) == v[1] * Ten(v[2])          \* value of a whole number

-----------------------------------------------------------------------------
(* Records                                                                    *)
G == 0  R == 1  S == 2  E == 3  C == 4  J == 5  I == 6
Systems == 0..6
Numbers(y) == CASE y \in {R, S} -> 15 [] y = E -> 27 [] y = C -> 28 [] y = I -> 28 [] OTHER -> 29
\* the j-th number of a record belongs into this slot (0..30)
Slot(y, j) == IF y \in {E, C} /\ j > 22 THEN j ELSE j - 1
Kilo == {3, 4, 5, 7, 8, 9, 11, 12, 13}
Scaled(y, k, v) == IF y = R /\ k \in Kilo /\ v # Zero THEN <<v[1], v[2] + 3>> ELSE v
Data(b) == [i \in 1..31 |->
              IF \E j \in 1..Numbers(b.y) : Slot(b.y, j) = i - 1
              THEN Scaled(b.y, i - 1, b.d[CHOOSE j \in 1..Numbers(b.y) : Slot(b.y, j) = i - 1])
              ELSE Zero]

Day == 86400
Week == 604800
\* start of GPS week w (week 0 began 12779 days before 2015-01-01)
WeekStart(w) == (7 * w - 12779) * Day
WeekOf(t) == LET d == t \div Day IN (d + 12779) \div 7
Toe(b) ==
    LET x == Data(b) IN
    CASE b.y \in {G, E} -> WeekStart(IntOf(x[22])) + IntOf(x[12])
      [] b.y = C        -> WeekStart(IntOf(x[22]) + 1356) + IntOf(x[12])
      [] b.y = R        -> \* second of the UTC week, of the week that is nearest to the clock epoch
            LET c == WeekStart(WeekOf(b.t)) + IntOf(x[3])
                n == (c \div Day) - (b.t \div Day)
            IN  IF n > 3 THEN c - Week ELSE IF n < -3 THEN c + Week ELSE c
      [] OTHER -> 0
HasToe(y) == y \in {G, R, E, C}
Frame(b) == <<b.y, b.p, b.t, IF HasToe(b.y) THEN <<Toe(b)>> ELSE <<>>, Data(b)>>

\* derived values; -999 says that the library refuses to answer
Health(b) == CASE b.y = R -> IntOf(Data(b)[7]) [] b.y \in {G, E, C} -> IntOf(Data(b)[25]) [] OTHER -> -999
Fit(b) == CASE b.y = R -> 900 [] b.y = G -> 3600 * IntOf(Data(b)[29]) [] b.y \in {E, C} -> 14400 [] OTHER -> -999
Attr(b) == <<Health(b), Fit(b),
             IF b.y \in {G, E} THEN Data(b)[24] ELSE Zero,       \* accuracy in meters
             IF b.y = E THEN IntOf(Data(b)[4]) ELSE 0>>             \* issue of data

-----------------------------------------------------------------------------
(* Reading                                                                    *)
N == Len(recs)
Next1 == recs[pos + 1]
AtEnd == pos = N
Unread(b) == b.bad \in {"sys", "num", "date", "cut", "prn"}
Unskip(b) == b.bad \in {"sys", "cut"}
\* a line of this record is far too long: it is refused, or read all the same
Long(b) == b.bad = "long"
Goto(p) == pos' = p

Read ==
    /\ UNCHANGED <<recs, mark>>
    /\ IF Lost THEN pos' = -1 /\ frame' = <<>> /\ out' = {}
       ELSE IF AtEnd THEN UNCHANGED <<pos, frame>> /\ out' = Ok(<<-1, <<>>>>)
       ELSE IF Unread(Next1) THEN pos' = -1 /\ frame' = <<>> /\ out' = Any({<<1, <<>>>>, <<-1, <<>>>>})
       ELSE IF Long(Next1) THEN pos' = -1 /\ frame' = <<>> /\ out' = Any({<<1, <<>>>>, <<-1, <<>>>>, <<0, Frame(Next1)>>})
       ELSE pos' = pos + 1 /\ frame' = Next1 /\ out' = Ok(<<0, Frame(Next1)>>)
Peek ==
    /\ UNCHANGED <<recs, mark, frame>>
    /\ IF Lost THEN pos' = -1 /\ out' = {}
       ELSE IF AtEnd THEN UNCHANGED pos /\ out' = Ok(<<-1, -1>>)
       ELSE IF Next1.bad = "sys" THEN pos' = -1 /\ out' = Ok(<<1, -1>>)
       ELSE UNCHANGED pos /\ out' = Ok(<<0, Next1.y>>)
Skip ==
    /\ UNCHANGED <<recs, mark, frame>>
    /\ IF Lost THEN pos' = -1 /\ out' = {}
       ELSE IF AtEnd THEN UNCHANGED pos /\ out' = Ok(<<-1>>)
       ELSE IF Unskip(Next1) THEN pos' = -1 /\ out' = Any({<<1>>, <<-1>>})
       ELSE IF Long(Next1) THEN pos' = -1 /\ out' = Any({<<1>>, <<-1>>, <<0>>})
       ELSE pos' = pos + 1 /\ out' = Ok(<<0>>)
Rewind == UNCHANGED <<recs, mark, frame>> /\ pos' = 0 /\ out' = Ok(<<>>)
\* back to where the last search began
Back == /\ UNCHANGED <<recs, mark, frame>>
        /\ pos' = IF mark = -2 THEN -1 ELSE IF mark = -1 THEN 0 ELSE mark
        /\ out' = Ok(<<>>)

\* a search walks over records k = pos+1, pos+2, ...: a wanted record stops it,
\* so does one that cannot be passed (records of the system are read)
Stops(k, y, Wanted(_), Stop(_)) ==
    LET b == recs[k] IN
    \/ Unskip(b) \/ (b.y = y /\ Unread(b))
    \/ (b.y = y /\ ~Unread(b) /\ (Wanted(b) \/ Stop(b)))
Refusal == {<<1, <<>>>>, <<-1, <<>>>>}
Search(y, Wanted(_), Stop(_)) ==
    /\ UNCHANGED recs
    /\ IF Lost THEN pos' = -1 /\ mark' = -2 /\ frame' = <<>> /\ out' = {}
       ELSE LET H == {k \in pos + 1..N : Stops(k, y, Wanted, Stop)}
                k == IF H = {} THEN N + 1 ELSE CHOOSE k \in H : \A j \in H : k <= j
                found == IF k > N THEN {<<-1, <<>>>>}
                         ELSE IF Unskip(recs[k]) \/ Unread(recs[k]) THEN Refusal
                         ELSE IF Stop(recs[k]) THEN {<<-1, <<>>>>}
                         ELSE {<<0, Frame(recs[k])>>}
            IN
            /\ mark' = pos
            /\ IF \E j \in pos + 1..(IF k > N THEN N ELSE k) : Long(recs[j])
               THEN pos' = -1 /\ frame' = <<>> /\ out' = Any(Refusal \cup found)
               ELSE /\ out' = Any(found)
                    /\ pos' = IF k > N THEN N ELSE IF Unskip(recs[k]) \/ Unread(recs[k]) THEN -1 ELSE k
                    /\ frame' = IF k > N \/ found \cap Refusal # {} THEN <<>> ELSE recs[k]
Never(b) == FALSE
Find(y, p) == LET W(b) == p = -1 \/ b.p = p IN Search(y, W, Never)

\* records of healthy satellites are valid from their clock epoch for the fit
\* interval (GLONASS: for 15 minutes on either side of their reference epoch);
\* a record of the satellite more than four hours ahead ends the search.
\* Times with milliseconds: <<s, ms>>.
Later(t, s) == t[1] > s \/ (t[1] = s /\ t[2] > 0)        \* t > s
Before(t, s) == t[1] < s                                   \* t < s
ValidAt(b, t) ==
    /\ Health(b) = 0
    /\ IF b.y = R THEN ~Before(t, Toe(b) - 900) /\ Before(t, Toe(b) + 900)
       ELSE ~Before(t, b.t) /\ Before(t, b.t + Fit(b))
TooFar(b, t) == Before(t, b.t - 14400)
FindValid(t, y, p) ==
    IF ~HasToe(y)
    THEN /\ UNCHANGED <<recs, frame>> /\ mark' = -2 /\ pos' = -1
         /\ out' = Any({<<1, <<>>>>, <<-1, <<>>>>})
    ELSE LET Same(b) == p = -1 \/ b.p = p
             W(b) == Same(b) /\ ValidAt(b, t)
             F(b) == Same(b) /\ TooFar(b, t)
         IN Search(y, W, F)

AttrOf == UNCHANGED <<recs, pos, mark, frame>>
          /\ out' = IF frame = <<>> THEN {} ELSE Ok(Attr(frame))

\* how: 0 ok, 1 a file that is refused (the reader stays as it is)
Load(how, bs) ==
    IF how = 0 THEN recs' = bs /\ pos' = 0 /\ mark' = -1 /\ UNCHANGED frame /\ out' = Ok(<<>>)
    ELSE UNCHANGED <<recs, pos, mark, frame>> /\ out' = {[st |-> "exc", r |-> <<>>]}
Move(how) == UNCHANGED <<recs, pos, mark, frame>> /\ out' = Ok(<<>>)
\* errno is set by somebody else
Touch == UNCHANGED <<recs, pos, mark, frame>> /\ out' = Ok(<<>>)
Damaged == UNCHANGED <<recs, pos, mark, frame>> /\ out' = Ok(<<TRUE>>)

Init == recs = <<>> /\ pos = -1 /\ mark = -1 /\ frame = <<>> /\ out = {}
Reset == recs' = <<>> /\ pos' = -1 /\ mark' = -1 /\ frame' = <<>> /\ out' = Ok(<<>>)

Do(op, a) ==
    \/ op = "reset"  /\ Reset
    \/ op = "load"   /\ Load(a[1], a[2])
    \/ op = "read"   /\ Read
    \/ op = "peek"   /\ Peek
    \/ op = "skip"   /\ Skip
    \/ op = "rewind" /\ Rewind
    \/ op = "back"   /\ Back
    \/ op = "find"   /\ Find(a[1], a[2])
    \/ op = "valid"  /\ FindValid(a[1], a[2], a[3])
    \/ op = "attr"   /\ AttrOf
    \/ op = "errno"  /\ Touch
    \/ op = "move"   /\ Move(a[1])
    \/ op = "damage" /\ Damaged

-----------------------------------------------------------------------------
TypeOK == pos \in -1..N /\ mark \in -2..N
\* every number has its own slot, and no slot is used beyond the array
SlotsSound == \A y \in Systems :
    /\ \A j \in 1..Numbers(y) : Slot(y, j) \in 0..30
    /\ \A i, j \in 1..Numbers(y) : i # j => Slot(y, i) # Slot(y, j)
\* the reference epoch is within half a week of the clock epoch for GLONASS
ToeSound == \A k \in 1..N : recs[k].y = R /\ recs[k].bad = "" =>
    Toe(recs[k]) - recs[k].t < 4 * Day /\ recs[k].t - Toe(recs[k]) < 4 * Day
\* whatever a search delivers is the record just before the position
FrameSound == (frame # <<>> /\ pos >= 1) => frame \in {recs[k] : k \in 1..N} \cup {frame}
=============================================================================
