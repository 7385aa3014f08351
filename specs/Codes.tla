-------------------------------- MODULE Codes --------------------------------
(* Satellite-system letters, observation codes, carrier frequencies and       *)
(* linear combinations of observables.                                         *)
(* Systems are numbered 0..7 = gps glonass sbas galileo beidou qzss irnss      *)
(* mixed; observable types 0..6 = C L D S I X any.  Coefficients are eighths,  *)
(* frequencies kHz (so coefficient*frequency is an exact number of kHz/8).     *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Regs
VARIABLES code, obs, out
vars == <<code, obs, out>>

Ok(r) == {[st |-> "ok", r |-> r]}
Exc   == {[st |-> "exc", r |-> <<>>]}
Any == 63                                               \* '?'
Blank == 32

Systems == 0..7
SysLetter  == <<71, 82, 83, 69, 67, 74, 73, 77>>         \* G R S E C J I M
TypeLetter == <<67, 76, 68, 83, 73, 88, Any>>           \* C L D S I X ?

(* RINEX 3.04, tables 4-10: nominal carrier frequencies in kHz.                *)
Freq == [s \in Systems |->
  CASE s = 0 -> [b \in {1, 2, 5} |-> CASE b = 1 -> 1575420 [] b = 2 -> 1227600 [] b = 5 -> 1176450]
    [] s = 1 -> [b \in {1, 2, 3} |-> CASE b = 1 -> 1602000 [] b = 2 -> 1246000 [] b = 3 -> 1202025]
    [] s = 2 -> [b \in {1, 5} |-> CASE b = 1 -> 1575420 [] b = 5 -> 1176450]
    [] s = 3 -> [b \in {1, 5, 6, 7, 8} |-> CASE b = 1 -> 1575420 [] b = 5 -> 1176450 [] b = 6 -> 1278750
                                              [] b = 7 -> 1207140 [] b = 8 -> 1191795]
    [] s = 4 -> [b \in {1, 2, 5, 6, 7, 8} |-> CASE b = 1 -> 1575420 [] b = 2 -> 1561098 [] b = 5 -> 1176450
                                              [] b = 6 -> 1268520 [] b = 7 -> 1207140 [] b = 8 -> 1191795]
    [] s = 5 -> [b \in {1, 2, 5, 6} |-> CASE b = 1 -> 1575420 [] b = 2 -> 1227600 [] b = 5 -> 1176450
                                              [] b = 6 -> 1278750]
    [] s = 6 -> [b \in {5, 9} |-> CASE b = 5 -> 1176450 [] b = 9 -> 2492028]
    [] s = 7 -> [b \in {} |-> 0]]

(* RINEX 3.04, tables 4-10: tracking attributes of each band; those that came   *)
(* with 3.03/3.04 and later (More) may or may not be listed.  63 = unknown.     *)
IQX == {73, 81, 88}
ABCX == {65, 66, 67, 88}
Attrs == [s \in Systems |-> [b \in DOMAIN Freq[s] |-> {Any} \cup
  CASE s = 0 /\ b = 1 -> {67, 83, 76, 88, 80, 87, 89, 77, 78}
    [] s = 0 /\ b = 2 -> {67, 68, 83, 76, 88, 80, 87, 89, 77, 78}
    [] s = 1 /\ b \in {1, 2} -> {67, 80}
    [] s = 2 /\ b = 1 -> {67}
    [] s = 3 /\ b \in {1, 6} -> ABCX \cup {90}
    [] s = 4 /\ b \in {1, 5, 8} -> {68, 80, 88}
    [] s = 5 /\ b = 1 -> {67, 83, 76, 88, 90}
    [] s = 5 /\ b \in {2, 6} -> {83, 76, 88}
    [] s = 6 -> ABCX
    [] OTHER -> IQX]]
More(s, b) == CASE s = 4 /\ b = 1 -> {65, 78, 83, 76, 90} [] s = 4 /\ b \in {6, 7} -> {65, 68, 80, 90}
                [] s = 5 /\ b = 5 -> {68, 80, 90} [] s = 5 /\ b = 6 -> {69, 90} [] OTHER -> {}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})

(* Interface documents: mu, earth rotation rate, relativistic clock constant.   *)
Consts == [s \in {0, 3, 4} |->
  CASE s = 0 -> <<"3.9860050000e+14", "7.2921151467e-05", "-4.4428076330e-10">>
    [] s = 3 -> <<"3.9860044180e+14", "7.2921151467e-05", "-4.4428073090e-10">>
    [] s = 4 -> <<"3.9860044180e+14", "7.2921150000e-05", "-4.4428073090e-10">>]

Index(x, seq) == {k \in 1..Len(seq) : seq[k] = x}

-----------------------------------------------------------------------------
(* C01: letters.                                                               *)
CharToSys(c) ==
    /\ UNCHANGED <<code, obs>>
    /\ out' = IF Index(c, SysLetter) = {} THEN Exc
              ELSE Ok(<<(CHOOSE k \in Index(c, SysLetter) : TRUE) - 1>>)
SysToChar(s) == UNCHANGED <<code, obs>> /\ out' = Ok(<<SysLetter[s + 1]>>)

-----------------------------------------------------------------------------
(* C02: observation codes <<type, band, attribute>>.                           *)
CharToType(c) ==
    /\ UNCHANGED <<code, obs>>
    /\ out' = LET i == Index(c, SubSeq(TypeLetter, 1, 6))
              IN  IF i = {} THEN Exc ELSE Ok(<<(CHOOSE k \in i : TRUE) - 1>>)
TypeToChar(t) == UNCHANGED <<code, obs>> /\ out' = Ok(<<TypeLetter[t + 1]>>)

Text(c) == <<TypeLetter[c[1] + 1], 48 + c[2], c[3]>>
Parses(t) == Len(t) >= 2 /\ Index(t[1], SubSeq(TypeLetter, 1, 6)) # {} /\ t[2] \in 48..57
Parsed(t) == <<(CHOOSE k \in Index(t[1], TypeLetter) : TRUE) - 1, t[2] - 48,
               IF Len(t) >= 3 /\ t[3] # Blank THEN t[3] ELSE Any>>
DefaultCode == <<6, 0, Any>>

\* complete contents of a code register (a printable band is one digit)
Seen(c) == IF c[2] \in 0..9 THEN <<c[1], c[2], c[3], Text(c)>> ELSE <<c[1], c[2], c[3], <<>>>>

Put(r, c) == code' = [code EXCEPT ![r] = c] /\ UNCHANGED obs /\ out' = Ok(Seen(c))
CParse(r, t) == IF Parses(t) THEN Put(r, Parsed(t))
                ELSE UNCHANGED <<code, obs>> /\ out' = Exc
CMake(r, t, b, at) == Put(r, <<t, b, at>>)
CDefault(r) == Put(r, DefaultCode)
CBand(r, b) == Put(r, [code[r] EXCEPT ![2] = b])
CType(r, t) == Put(r, [code[r] EXCEPT ![1] = t])
CAttr(r, x) == Put(r, [code[r] EXCEPT ![3] = x])
CCopy(r, q) == Put(r, code[q])
CSee(r) == UNCHANGED <<code, obs>> /\ out' = Ok(Seen(code[r]))
CEq(r, q) == UNCHANGED <<code, obs>> /\ out' = Ok(<<code[r] = code[q], code[r] # code[q]>>)
\* the three fields through the accessors: 0 by value, 1 unpacked
CBind(r, how) == UNCHANGED <<code, obs>> /\ out' = Ok(code[r])
\* field k (1 type, 2 band, 3 attribute) written through an unpacked reference
CWrite(r, k, v) == Put(r, [code[r] EXCEPT ![k] = v])
\* attributes on their own
AtEq(x, y) == UNCHANGED <<code, obs>> /\ out' = Ok(<<x = y, x # y>>)
\* raw observables: a system and a code
\* built with system s, unpacked (how 1) or read; then the system set to z
RBind(s, r, z, how) == UNCHANGED <<code, obs>> /\ out' = Ok(<<s>> \o code[r] \o <<z>> \o code[r])
RStr(s, r) == /\ code[r][2] \in 0..9 /\ UNCHANGED <<code, obs>>
              /\ out' = Ok(<<<<SysLetter[s + 1], 58, 58>> \o Text(code[r]), s, code[r][2]>>)
REq(s, r, z, q) == /\ UNCHANGED <<code, obs>>
                   /\ LET e == s = z /\ code[r] = code[q] IN out' = Ok(<<e, ~e>>)

-----------------------------------------------------------------------------
(* C03: frequencies.                                                           *)
NoBandTable == {1, 7}          \* GLONASS, mixed: no frequency per band
PartDefined(s, b) == s \in NoBandTable \/ b \in DOMAIN Freq[s]
PartFreq(s, b, c) == IF s \in NoBandTable THEN 0 ELSE c * Freq[s][b]
FPart(s, b, c) ==
    /\ UNCHANGED <<code, obs>>
    /\ out' = IF PartDefined(s, b) THEN Ok(<<PartFreq(s, b, c)>>) ELSE Exc
FBand(s, b) ==
    /\ s \notin NoBandTable /\ UNCHANGED <<code, obs>>
    /\ out' = IF b \in DOMAIN Freq[s] THEN Ok(<<Freq[s][b]>>) ELSE Exc
\* nominal frequency recorded in the table, also for GLONASS
FTable(s, b) ==
    /\ s # 7 /\ UNCHANGED <<code, obs>>
    /\ out' = Ok(<<b \in DOMAIN Freq[s], IF b \in DOMAIN Freq[s] THEN Freq[s][b] ELSE 0>>)
\* is the band in the attribute table, and with which attributes
FAttr(s, b) ==
    /\ UNCHANGED <<code, obs>>
    /\ out' = IF b \in DOMAIN Freq[s]
              THEN UNION {Ok(<<TRUE, Sorted(Attrs[s][b] \cup m)>>) : m \in SUBSET More(s, b)}
              ELSE Ok(<<FALSE, <<>>>>)
FConst(s) == s \in {0, 3, 4} /\ UNCHANGED <<code, obs>> /\ out' = Ok(Consts[s])

-----------------------------------------------------------------------------
(* C04: combinations: sequences of parts <<sys, type, band, attr, coef, eps>>;  *)
(* the coefficient is coef/8 + eps/2^30: eps tells parts apart and is too small *)
(* to be seen in texts and frequencies.                                         *)
Count(x, s) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Count(s[k], s) = Count(s[k], t)

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Abs(n) == IF n < 0 THEN -n ELSE n
\* eighths as fixed-point text with six decimals
CoefText(c) == LET f == (Abs(c) % 8) * 125
               IN  (IF c < 0 THEN <<45>> ELSE <<>>) \o Digits(Abs(c) \div 8) \o
                   <<46, 48 + (f \div 100), 48 + ((f \div 10) % 10), 48 + (f % 10), 48, 48, 48>>
PartText(p) == <<SysLetter[p[1] + 1], 58, 58>> \o Text(<<p[2], p[3], p[4]>>) \o <<42>> \o CoefText(p[5])
RECURSIVE ObsText(_)
ObsText(o) == IF Len(o) = 1 THEN PartText(o[1])
              ELSE ObsText(SubSeq(o, 1, Len(o) - 1)) \o <<43>> \o PartText(o[Len(o)])
Mixed(o) == \E k \in 1..Len(o) : o[k][1] # o[1][1]
ObsDefined(o) == \A k \in 1..Len(o) : PartDefined(o[k][1], o[k][3])
RECURSIVE ObsFreq(_)
ObsFreq(o) == IF o = <<>> THEN 0
              ELSE PartFreq(o[1][1], o[1][3], o[1][5]) + ObsFreq(Tail(o))

ObsSeen(o) == Ok(<<ObsText(o), Len(o), Mixed(o)>>)
OPut(r, o) == obs' = [obs EXCEPT ![r] = o] /\ UNCHANGED code /\ out' = ObsSeen(o)
\* how > 1: the constructors and add without a coefficient: it is one
Unit(p) == [p EXCEPT ![5] = 8, ![6] = 0]
ONew(r, p, how) == OPut(r, <<IF how > 1 THEN Unit(p) ELSE p>>)
OAdd(r, p, how) == obs[r] # <<>> /\ OPut(r, Append(obs[r], IF how > 1 THEN Unit(p) ELSE p))
OCopy(r, q) == obs[q] # <<>> /\ OPut(r, obs[q])
\* the parts, through the list of parts
OPart(r, k) == /\ k <= Len(obs[r]) /\ UNCHANGED <<code, obs>>
               /\ out' = LET p == obs[r][k] IN Ok(<<p, PartText(p)>>)
OSet(r, k, p) == k <= Len(obs[r]) /\ OPut(r, [obs[r] EXCEPT ![k] = p])
ODrop(r, k) == /\ k <= Len(obs[r]) /\ Len(obs[r]) > 1
               /\ OPut(r, SubSeq(obs[r], 1, k - 1) \o SubSeq(obs[r], k + 1, Len(obs[r])))
\* a part compared with a part of another combination
PEq(r, j, q, k) == /\ j <= Len(obs[r]) /\ k <= Len(obs[q]) /\ UNCHANGED <<code, obs>>
                   /\ LET e == obs[r][j] = obs[q][k] IN out' = Ok(<<e, ~e>>)
\* combinations with no part left: equal, of no system and of no frequency
Hollow(r) == /\ obs[r] # <<>> /\ UNCHANGED <<code, obs>>
             /\ out' = Ok(<<TRUE, FALSE, FALSE, 0, FALSE, TRUE>>)
OSee(r) == obs[r] # <<>> /\ UNCHANGED <<code, obs>> /\ out' = ObsSeen(obs[r])
OEq(r, q) == /\ obs[r] # <<>> /\ obs[q] # <<>> /\ UNCHANGED <<code, obs>>
             /\ LET e == SameBag(obs[r], obs[q]) IN out' = Ok(<<e, ~e>>)
OFreq(r) == /\ obs[r] # <<>> /\ UNCHANGED <<code, obs>>
            /\ out' = IF ObsDefined(obs[r]) THEN Ok(<<ObsFreq(obs[r])>>) ELSE Exc

-----------------------------------------------------------------------------
Init == code = [r \in Regs |-> DefaultCode] /\ obs = [r \in Regs |-> <<>>] /\ out = {}
Reset == code' = [r \in Regs |-> DefaultCode] /\ obs' = [r \in Regs |-> <<>>] /\ out' = Ok(<<>>)

Do(op, a) ==
    \/ op = "reset"    /\ Reset
    \/ op = "char2sys" /\ CharToSys(a[1])
    \/ op = "sys2char" /\ SysToChar(a[1])
    \/ op = "char2typ" /\ CharToType(a[1])
    \/ op = "typ2char" /\ TypeToChar(a[1])
    \/ op = "cparse"   /\ CParse(a[1], a[2])
    \/ op = "cmake"    /\ CMake(a[1], a[2], a[3], a[4])
    \/ op = "cdefault" /\ CDefault(a[1])
    \/ op = "cband"    /\ CBand(a[1], a[2])
    \/ op = "ctype"    /\ CType(a[1], a[2])
    \/ op = "cattr"    /\ CAttr(a[1], a[2])
    \/ op = "ccopy"    /\ CCopy(a[1], a[2])
    \/ op = "csee"     /\ CSee(a[1])
    \/ op = "ceq"      /\ CEq(a[1], a[2])
    \/ op = "cbind"    /\ CBind(a[1], a[2])
    \/ op = "cwrite"   /\ CWrite(a[1], a[2], a[3])
    \/ op = "ateq"     /\ AtEq(a[1], a[2])
    \/ op = "rbind"    /\ RBind(a[1], a[2], a[3], a[4])
    \/ op = "opart"    /\ OPart(a[1], a[2])
    \/ op = "oset"     /\ OSet(a[1], a[2], a[3])
    \/ op = "odrop"    /\ ODrop(a[1], a[2])
    \/ op = "peq"      /\ PEq(a[1], a[2], a[3], a[4])
    \/ op = "hollow"   /\ Hollow(a[1])
    \/ op = "rstr"     /\ RStr(a[1], a[2])
    \/ op = "req"      /\ REq(a[1], a[2], a[3], a[4])
    \/ op = "fpart"    /\ FPart(a[1], a[2], a[3])
    \/ op = "fband"    /\ FBand(a[1], a[2])
    \/ op = "ftable"   /\ FTable(a[1], a[2])
    \/ op = "fattr"    /\ FAttr(a[1], a[2])
    \/ op = "fconst"   /\ FConst(a[1])
    \/ op = "onew"     /\ ONew(a[1], a[2], a[3])
    \/ op = "oadd"     /\ OAdd(a[1], a[2], a[3])
    \/ op = "ocopy"    /\ OCopy(a[1], a[2])
    \/ op = "osee"     /\ OSee(a[1])
    \/ op = "oeq"      /\ OEq(a[1], a[2])
    \/ op = "ofreq"    /\ OFreq(a[1])

-----------------------------------------------------------------------------
(* Design-level properties.                                                    *)
Bijection == /\ \A j, k \in 1..8 : SysLetter[j] = SysLetter[k] => j = k
             /\ \A j, k \in 1..7 : TypeLetter[j] = TypeLetter[k] => j = k
RoundTrip == \A r \in Regs : (code[r][1] # 6 /\ code[r][2] \in 0..9 /\ code[r][3] # Blank)
                => Parsed(Text(code[r])) = code[r]
EqReflexive == \A r \in Regs : SameBag(obs[r], obs[r])
EqSymmetric == \A r, q \in Regs : SameBag(obs[r], obs[q]) = SameBag(obs[q], obs[r])
EqTransitive == \A r, q, z \in Regs : SameBag(obs[r], obs[q]) /\ SameBag(obs[q], obs[z]) => SameBag(obs[r], obs[z])
\* frequencies of larger coefficients are beyond TLC's integers
Computable(o) == \A k \in 1..Len(o) : Abs(o[k][5]) < 200
EqRespectsFreq == \A r, q \in Regs : SameBag(obs[r], obs[q]) =>
    /\ ObsDefined(obs[r]) = ObsDefined(obs[q])
    /\ (ObsDefined(obs[r]) /\ Computable(obs[r])) => ObsFreq(obs[r]) = ObsFreq(obs[q])
    /\ Mixed(obs[r]) = Mixed(obs[q])
=============================================================================
