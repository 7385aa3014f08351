------------------------------ MODULE Antennas ------------------------------
(* Receiver antennas, satellite antennas and satellites as value objects in  *)
(* registers.  Texts are sequences of character codes.  Every public call of  *)
(* the classes is one action; `out' is the set of results it may return.      *)
EXTENDS Names, FiniteSets

CONSTANT Regs                       \* register numbers
VARIABLES ant, sant, sv, out
vars == <<ant, sant, sv, out>>

Ok(r) == {[st |-> "ok", r |-> r]}

-----------------------------------------------------------------------------
(* Receiver antennas: a 20-column name (model, blank, 4-column radome) and a  *)
(* serial that is absent (<<>>) or 20 columns.                                *)
DefaultAnt == [name |-> Pad(<<>>, 20), ser |-> <<>>]
HasSerial(a) == \E k \in 1..Len(a.ser) : a.ser[k] # Blank
SameModel(a, b) == a.name = b.name
SameAntenna(a, b) == HasSerial(a) /\ HasSerial(b) /\ a.name = b.name /\ a.ser = b.ser
SerialIs(a, t) == Pad(a.ser, 20) = Pad(Cut(t, 20), 20)

\* an action that changes a register returns its complete contents afterwards
AntSeen(r) == Ok(<<ant'[r].name \o ant'[r].ser>>)

New(r)          == ant' = [ant EXCEPT ![r] = DefaultAnt] /\ out' = AntSeen(r)
Make(r, t, how) == ant' = [ant EXCEPT ![r] = [name |-> NormName(t), ser |-> <<>>]] /\ out' = AntSeen(r)
SetSerial(r, t) == ant' = [ant EXCEPT ![r].ser = Pad(Cut(t, 20), 20)] /\ out' = AntSeen(r)
Copy(r, q)      == ant' = [ant EXCEPT ![r] = ant[q]] /\ out' = AntSeen(r)
Name(r)         == ant' = ant /\ out' = Ok(<<ant[r].name \o ant[r].ser>>)
Has(r)          == ant' = ant /\ out' = Ok(<<HasSerial(ant[r])>>)
CmpModel(r, q)  == ant' = ant /\ out' = Ok(<<SameModel(ant[r], ant[q])>>)
IsSame(r, q)    == ant' = ant /\ out' = Ok(<<SameAntenna(ant[r], ant[q])>>)
\* whether an antenna without serial matches a blank text is left open
CmpSerial(r, t) == /\ ant' = ant
                   /\ out' = IF ant[r].ser = <<>> /\ Pad(Cut(t, 20), 20) = Pad(<<>>, 20)
                             THEN {} ELSE Ok(<<SerialIs(ant[r], t)>>)

-----------------------------------------------------------------------------
(* Satellite antennas: at most 20 characters.                                 *)
SantSeen(r) == Ok(<<sant'[r]>>)
SNew(r)     == sant' = [sant EXCEPT ![r] = <<>>] /\ out' = SantSeen(r)
SMake(r, t) == sant' = [sant EXCEPT ![r] = Cut(t, 20)] /\ out' = SantSeen(r)
SSet(r, t)  == sant' = [sant EXCEPT ![r] = Cut(t, 20)] /\ out' = SantSeen(r)
SCopy(r, q) == sant' = [sant EXCEPT ![r] = sant[q]] /\ out' = SantSeen(r)
SIs(r, t)   == sant' = sant /\ out' = Ok(<<sant[r] = Cut(t, 20)>>)
SStr(r)     == sant' = sant /\ out' = Ok(<<sant[r], sant[r]>>)

-----------------------------------------------------------------------------
(* Satellites.  Systems are 0..7 = G R S E C J I M.                            *)
Letter == <<71, 82, 83, 69, 67, 74, 73, 77>>
SatDefault(sys, prn) == [sys |-> sys, prn |-> prn, svn |-> -1, ant |-> <<>>, cospar |-> <<>>]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE Append(Zeros(n - 1), 48)
ZPad(n, w) == LET d == Digits(n) IN Zeros(w - Len(d)) \o d

Compact(s) == <<Letter[s.sys + 1]>> \o ZPad(s.prn, 2)
LongForm(s) == Compact(s) \o <<45>> \o ZPad(s.svn, 3) \o <<47>> \o s.cospar

SvSeen(r) == Ok(<<sv'[r].sys, sv'[r].prn, sv'[r].svn, sv'[r].ant, sv'[r].cospar>>)
VNew(r)            == sv' = [sv EXCEPT ![r] = SatDefault(7, -1)] /\ out' = SvSeen(r)
VNew1(r, sys)      == sv' = [sv EXCEPT ![r] = SatDefault(sys, -1)] /\ out' = SvSeen(r)
VNew2(r, sys, prn) == sv' = [sv EXCEPT ![r] = SatDefault(sys, prn)] /\ out' = SvSeen(r)
VSys(r, x)         == sv' = [sv EXCEPT ![r].sys = x] /\ out' = SvSeen(r)
VPrn(r, x)         == sv' = [sv EXCEPT ![r].prn = x] /\ out' = SvSeen(r)
VSvn(r, x)         == sv' = [sv EXCEPT ![r].svn = x] /\ out' = SvSeen(r)
VAnt(r, t)         == sv' = [sv EXCEPT ![r].ant = Cut(t, 20)] /\ out' = SvSeen(r)
VCospar(r, t)      == Len(t) = 9 /\ sv' = [sv EXCEPT ![r].cospar = t] /\ out' = SvSeen(r)
VCopy(r, q)        == sv' = [sv EXCEPT ![r] = sv[q]] /\ out' = SvSeen(r)
VGet(r)            == sv' = sv /\ out' = Ok(<<sv[r].sys, sv[r].prn, sv[r].svn, sv[r].ant, sv[r].cospar>>)
VStr(r)            == sv[r].prn >= 0 /\ sv' = sv /\ out' = Ok(<<Compact(sv[r])>>)
VLong(r)           == sv[r].prn >= 0 /\ sv[r].svn >= 0 /\ sv' = sv /\ out' = Ok(<<LongForm(sv[r])>>)

-----------------------------------------------------------------------------
InitState == /\ ant = [r \in Regs |-> DefaultAnt]
             /\ sant = [r \in Regs |-> <<>>]
             /\ sv = [r \in Regs |-> SatDefault(7, -1)]
Init == InitState /\ out = {}
Reset == /\ ant' = [r \in Regs |-> DefaultAnt]
         /\ sant' = [r \in Regs |-> <<>>]
         /\ sv' = [r \in Regs |-> SatDefault(7, -1)]
         /\ out' = Ok(<<>>)

(* Dispatch of a call by name: used by both the model-checking and the trace  *)
(* specification, so that there is one definition of every action.            *)
Do(op, a) ==
    \/ op = "reset" /\ Reset
    \/ /\ UNCHANGED <<sant, sv>>
       /\ \/ op = "new"    /\ New(a[1])
          \/ op = "make"   /\ Make(a[1], a[2], a[3])
          \/ op = "setser" /\ SetSerial(a[1], a[2])
          \/ op = "copy"   /\ Copy(a[1], a[2])
          \/ op = "name"   /\ Name(a[1])
          \/ op = "has"    /\ Has(a[1])
          \/ op = "model"  /\ CmpModel(a[1], a[2])
          \/ op = "same"   /\ IsSame(a[1], a[2])
          \/ op = "cmpser" /\ CmpSerial(a[1], a[2])
    \/ /\ UNCHANGED <<ant, sv>>
       /\ \/ op = "snew"  /\ SNew(a[1])
          \/ op = "smake" /\ SMake(a[1], a[2])
          \/ op = "sset"  /\ SSet(a[1], a[2])
          \/ op = "scopy" /\ SCopy(a[1], a[2])
          \/ op = "sis"   /\ SIs(a[1], a[2])
          \/ op = "sstr"  /\ SStr(a[1])
    \/ /\ UNCHANGED <<ant, sant>>
       /\ \/ op = "vnew"    /\ VNew(a[1])
          \/ op = "vnew1"   /\ VNew1(a[1], a[2])
          \/ op = "vnew2"   /\ VNew2(a[1], a[2], a[3])
          \/ op = "vsys"    /\ VSys(a[1], a[2])
          \/ op = "vprn"    /\ VPrn(a[1], a[2])
          \/ op = "vsvn"    /\ VSvn(a[1], a[2])
          \/ op = "vant"    /\ VAnt(a[1], a[2])
          \/ op = "vcospar" /\ VCospar(a[1], a[2])
          \/ op = "vcopy"   /\ VCopy(a[1], a[2])
          \/ op = "vget"    /\ VGet(a[1])
          \/ op = "vstr"    /\ VStr(a[1])
          \/ op = "vlong"   /\ VLong(a[1])

-----------------------------------------------------------------------------
(* What the design promises, checked in every reachable state.                *)
NamesAre20 == \A r \in Regs : Len(ant[r].name) = 20 /\ Len(ant[r].ser) \in {0, 20}
RadomeSet == \A r \in Regs : ant[r].name = Pad(<<>>, 20)
                \/ \E k \in 17..20 : ant[r].name[k] # Blank
Symmetric == \A r, q \in Regs : /\ SameAntenna(ant[r], ant[q]) = SameAntenna(ant[q], ant[r])
                                /\ SameModel(ant[r], ant[q]) = SameModel(ant[q], ant[r])
SameImpliesModel == \A r, q \in Regs : SameAntenna(ant[r], ant[q]) =>
                        SameModel(ant[r], ant[q]) /\ SerialIs(ant[r], ant[q].ser)
ReflexiveIffSerial == \A r \in Regs : SameAntenna(ant[r], ant[r]) = HasSerial(ant[r])
SatAntBounded == \A r \in Regs : Len(sant[r]) <= 20 /\ Len(sv[r].ant) <= 20
CosparShape == \A r \in Regs : Len(sv[r].cospar) \in {0, 9}
=============================================================================
