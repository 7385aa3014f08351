------------------------------ MODULE OrbitMC ------------------------------
EXTENDS Orbit, TLC, Json
CONSTANTS Scope, Deep, Depth
VARIABLE hist

Base == [y |-> G, p |-> 7, e |-> 0, ra |-> 5, q |-> 0, ph |-> 0, c |-> 0, w |-> 0, o |-> 0, i |-> 2, id |-> 0, om |-> 0, od |-> 0,
         cu |-> <<0, 0>>, ci |-> <<0, 0>>, cr |-> <<0, 0>>, a0 |-> 0, a1 |-> 0, a2 |-> 0, dc |-> 0, T |-> 1800000, wk |-> 1825, sow |-> 345600]
Sats == {<<G, 7>>, <<E, 11>>, <<C, 14>>, <<C, 3>>}
Z == {<<0, 0>>}

\* all orientations of the orbit and places on it at the time of ephemeris
PlaneFrames ==
  {[Base EXCEPT !.y = s[1], !.p = s[2], !.e = e, !.q = q, !.c = IF e = 0 THEN 0 ELSE 5 * Sin4(q), !.o = o, !.i = i, !.om = om, !.ra = ra,
       !.cu = <<u, 0>>, !.sow = 345600 + 900 * q]
     : s \in Sats, e \in {0, 3, 4}, q \in 0..3, o \in 0..7, i \in {0, 2, 4, 6}, om \in 0..3, ra \in {5}, u \in {0, 1}}
\* harmonic corrections: each alone and together
HarmFrames ==
  {[Base EXCEPT !.y = y, !.e = e, !.q = q, !.c = IF e = 0 THEN 0 ELSE 5 * Sin4(q), !.o = o, !.i = i, !.om = 1,
       !.cu = IF e # 0 /\ q % 2 = 1 THEN <<25 * u[1], 25 * u[2]>> ELSE u, !.ci = IF e # 0 /\ q % 2 = 1 THEN <<25 * v[1], 25 * v[2]>> ELSE v, !.cr = r]
     : y \in {G, E, C}, e \in {0, 3, 4}, q \in 0..3, o \in 0..7, i \in {1, 2}, u \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<-2, 3>>},
       v \in {<<0, 0>>, <<1, 0>>, <<0, 1>>, <<3, -2>>}, r \in {<<0, 0>>, <<125, 0>>, <<0, -250>>, <<1000, 625>>}}
\* motion: all rates, epochs of week, clock polynomials
TimeFrames ==
  {[Base EXCEPT !.y = s[1], !.p = s[2], !.e = x[1], !.q = x[2], !.c = x[3], !.w = x[4], !.ra = ra, !.i = 1 + 2 * (x[2] % 2), !.o = 1, !.cu = x[5], !.ci = <<0, 1>>, !.id = id, !.od = od, !.T = t[1], !.sow = t[2], !.dc = t[3]]
     : s \in Sats \cup {<<C, 60>>}, ra \in {5, 7},
       x \in {<<0, 0, 0, 1, <<0, 1>>>>, <<0, 1, 0, -3, <<0, -1>>>>, <<3, 0, 0, 2, <<0, 1>>>>, <<4, 2, 0, 6, <<0, 3>>>>},
       id \in {0, 2, -4}, od \in {0, 1, -2},
       t \in {<<1800000, 345600, 0>>, <<7200000, 604784, 16>>, <<3600000, 0, -600>>, <<900000, 86400, 7200>>, <<1500, 43200, 0>>, <<250, 86399, 1>>}}
\* the relativistic term needs places off the apsides
ClockFrames ==
  {[Base EXCEPT !.y = s[1], !.p = s[2], !.e = x[1], !.q = x[2], !.ph = ph, !.c = IF x[1] = 0 THEN 0 ELSE Rot(IF ph = 1 THEN <<3, 4>> ELSE <<5, 0>>, x[2])[2], !.w = 4, !.ra = ra, !.a0 = a[1], !.a1 = a[2], !.a2 = a[3], !.T = t[1], !.sow = t[2], !.dc = t[3]]
     : s \in {<<G, 7>>, <<E, 11>>, <<C, 14>>}, x \in {<<0, 1>>, <<3, 1>>, <<3, 3>>, <<4, 1>>, <<4, 3>>, <<4, 2>>, <<3, 0>>}, ph \in {0, 1}, ra \in {5, 6, 7},
       a \in {<<0, 0, 0>>, <<123456, 0, 0>>, <<-9876543, 12, 0>>, <<5, -77, 3>>, <<0, 0, -5>>},
       t \in {<<1800000, 345600, 0>>, <<7200000, 604784, 16>>, <<3600000, 0, -600>>, <<900000, 86400, 7200>>}}
OtherFrames == {[Base EXCEPT !.y = y] : y \in {S, J, I}}

GBase == [y |-> R, p |-> 5, m |-> 0, v |-> <<3, 0, 4>>, n |-> 5, s |-> 1, b |-> 0, sp |-> 0, a0 |-> 0, a1 |-> 0, wk |-> 1825, sow |-> 345600, dc |-> 0]
Dirs == {<<<<1, 0, 0>>, 1>>, <<<<0, -1, 0>>, 1>>, <<<<0, 0, 1>>, 1>>, <<<<3, 0, 4>>, 5>>, <<<<-12, 15, 16>>, 25>>, <<<<9, -12, -20>>, 25>>}
GloFrames ==
  {[GBase EXCEPT !.m = 0, !.v = d[1], !.n = d[2], !.sow = t, !.a1 = a] : d \in Dirs, t \in {345600, 86400, 604000, 2700}, a \in {0, 91}}
  \cup {[GBase EXCEPT !.m = m, !.v = d[1], !.n = d[2], !.s = s, !.sow = t, !.a0 = -77777, !.a1 = -18]
          : m \in {1, 2}, s \in {1, -1}, d \in {<<<<1, 0, 0>>, 1>>, <<<<-3, 4, 0>>, 5>>, <<<<7, -24, 0>>, 25>>}, t \in {345600, 85500, 300}}
  \cup {[GBase EXCEPT !.m = 3, !.s = s, !.b = b, !.sp = sp, !.dc = dc, !.a0 = 1234] : s \in {1, -1}, b \in {0, 1, -3}, sp \in {0, 3000, -7}, dc \in {0, 900}}
GTimes == {0, 1, -1, 30, -30, 59, 60, -60, 61, -61, 119, 120, 450, 899, -899, 900, -900, 901, -1000}

One(op, f) == <<op, <<f>>>>
Frames == CASE Scope = "plane" -> PlaneFrames [] Scope = "harm" -> HarmFrames [] Scope = "time" -> TimeFrames \cup OtherFrames
            [] Scope = "clock" -> ClockFrames [] Scope = "glo" -> GloFrames [] OTHER -> {}
\* pairs of frames: nothing is left of the one before
MixFrames == {f \in TimeFrames : f.T = 900000 /\ f.id = 2 /\ f.od = 1 /\ f.ra = 5} \cup {f \in ClockFrames : f.T = 3600000 /\ f.a1 = -77 /\ f.ra = 6 /\ f.e = 4}
             \cup {f \in GloFrames : f.sow = 345600 /\ f.n = 5 /\ f.a1 # 91 /\ (f.m = 3 => f.b = -3 /\ f.sp = 3000 /\ f.dc = 900)}
Wanted(f) == f.y = R \/ f.y \in {S, J, I} \/ OnLattice(f, 0)
Ks == CASE Scope \in {"plane", "harm"} -> {0} [] Scope = "mix" -> {0, -2} [] OTHER -> IF Deep THEN -4..4 ELSE {-3, 0, 1, 2}
Calls ==
  IF hist = <<>> \/ (Scope = "mix" /\ Len(hist) % 2 = 0)
  THEN {One(IF f.y = R THEN "gset" ELSE "set", f) : f \in {g \in (IF Scope = "mix" THEN MixFrames ELSE Frames) : Wanted(g)}}
       \cup (IF Scope = "glo" THEN {<<"example", <<>>>>} ELSE {})
  ELSE IF fr = NoFrame THEN {}
  ELSE IF fr.y = R THEN {<<"geval", <<t>>>> : t \in IF Scope = "mix" THEN {0, -45} ELSE GTimes}
                       \cup (IF Scope = "mix" THEN {} ELSE {<<"glimit", <<t>>>> : t \in {899999, 900000, 900001, 900049, 900500, -899999, -900000, -900001, -900040}})
                       \cup (IF Scope = "mix" \/ fr.m = 3 THEN {} ELSE {<<"gevalms", <<t>>>> : t \in {1, 400, 999, -7, -500, 59900, 60020, -60020, 899999, -899999}})
  ELSE {<<"eval", <<k>>>> : k \in {j \in Ks : fr.y \in {S, J, I} \/ OnLattice(fr, j)}}
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E c \in Calls : (hist # <<>> \/ c[1] # "eval") /\ Do(c[1], c[2]) /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == Len(hist') = Depth \/ hist'[1].op = "example" => PrintT("HIST:" \o ToJson(hist'))

\* sanity of the specification: an undisturbed orbit keeps its distances, and four quarters bring the satellite back
Square3(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Down(v) == <<v[1] \div 4000000, v[2] \div 4000000, v[3] \div 4000000>>
Distances == \/ fr = NoFrame \/ fr.y \in {R, S, J, I}
             \/ \A k \in {0, 1, 4} : (OnLattice(fr, k) /\ fr.cr = <<0, 0>> /\ ~Geo(fr.y, fr.p)) =>
                  /\ Square3(Down(Position(fr, k))) = R25(fr, k) * R25(fr, k)
                  /\ (fr.od = 0 /\ fr.id = 0 /\ k = 4) => Position(fr, 4) = Position(fr, 0)
=============================================================================
