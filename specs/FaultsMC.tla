------------------------------ MODULE FaultsMC ------------------------------
EXTENDS Faults, TLC, Json, IOUtils
CONSTANTS Step, Depth, FillChars      \* columns are multiples of Step; faults per file
VARIABLE hist
\* per line: its length, the columns where fields of it (may) begin, and
\* its words as columns and widths (both only given for lines unlike others)
Template == ndJsonDeserialize(IOEnv.LINES)[1]
Marks(i) == IF hist = <<>> THEN {Template[i].marks[k] : k \in 1..Len(Template[i].marks)} ELSE {}
Words(i) == IF hist = <<>> THEN {Template[i].words[k] : k \in 1..Len(Template[i].words)} ELSE {}

\* a second fault strikes the same or the next lines
At == IF hist = <<>> THEN 1..N ELSE LET i == hist[1][2] IN {j \in i..i + 2 : j <= N}
Cols(i) == {n \in 0..lens[i] : n % (IF hist = <<>> THEN Step ELSE 7 * Step) = 0 \/ n = lens[i]}
Choices ==
    {<<"drop", i>> : i \in At} \cup {<<"double", i>> : i \in At} \cup {<<"swap", i>> : i \in At}
    \cup {<<"long", i, w>> : i \in At, w \in Fills}
    \cup {<<"insert", i, k>> : i \in At, k \in Lines}
    \cup UNION {{<<"cut", i, n>> : n \in Cols(i)} \cup {<<"short", i, n>> : n \in Cols(i) \cup Marks(i)}
                \cup {<<"char", i, n, c>> : n \in Cols(i) \cup Marks(i), c \in Chars}
                \cup {<<"fill", i, w[1], w[2], c>> : w \in Words(i), c \in FillChars}
                \cup {<<"shift", i, n, m>> : n \in Cols(i), m \in {1, 3}} : i \in At}
MCInit == lens = [i \in 1..Len(Template) |-> Template[i].len] /\ nl = TRUE /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E f \in Choices : Fault(f) /\ hist' = Append(hist, f)
Emit == Len(hist') = Depth => PrintT("HIST:" \o ToJson(<<[op |-> "damage", t |-> IOEnv.T, a |-> hist']>>))
=============================================================================
