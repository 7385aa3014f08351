------------------------------- MODULE Orbit -------------------------------
(* Satellite clock and position from a broadcast ephemeris (IS-GPS-200,       *)
(* Galileo OS SIS ICD, BeiDou B1I ICD, GLONASS ICD annex J), on the lattice   *)
(* of those elements for which the documents' formulas have exact values:     *)
(* - angles are eighths (..8) or quarters of a turn, eccentricities 0, 3/5    *)
(*   and 4/5, lengths multiples of A/10^8, clock values multiples of 10^-17 s *)
(* - GLONASS: states whose motion is known in closed form.                    *)
(* The numbers of the documents that are not on the lattice (mu, the rate of  *)
(* the Earth) take the elements there: see the plan navorbit.                 *)
EXTENDS Integers, Sequences

VARIABLES fr, out
vars == <<fr, out>>

NoFrame == [y |-> -1]
G == 0  R == 1  S == 2  E == 3  C == 4  J == 5  I == 6

\* constants of the interface documents (read by the plan, too)
\* mu [m^3/s^2], rate of the Earth [rad/s]
Documents == [
  gps     |-> [mu |-> "3.986005e14",    we |-> "7.2921151467e-5"],
  galileo |-> [mu |-> "3.986004418e14", we |-> "7.2921151467e-5"],
  beidou  |-> [mu |-> "3.986004418e14", we |-> "7.2921150e-5"],
  glonass |-> [mu |-> "398600441.8e6",  we |-> "7.2921151467e-5", j2 |-> "1082625.75e-9", ae |-> "6378136"]]
\* 200 sqrt(m) times the constant F of the relativistic clock term, in 10^-17 s
\* (F = -4.442807633e-10, -4.442807309e-10 and -2 sqrt(mu)/c^2 s/sqrt(m))
F200(y) == IF y = G THEN <<8885, 615266>> ELSE <<8885, 614618>>

Geo(y, p) == y = C /\ (p \in 1..5 \/ p \in 59..63)
\* cosine and sine of 5 degrees
C5 == 99619470
S5 == 8715574

Sin4(q) == <<0, 1, 0, -1>>[(q % 4) + 1]
Cos4(q) == Sin4(q + 1)
Rot(v, q) == <<v[1] * Cos4(q) - v[2] * Sin4(q), v[1] * Sin4(q) + v[2] * Cos4(q)>>

(* A Keplerian frame: y p; e fifths; ra sqrt(A) in 1000 sqrt(m); the eccentric  *)
(* anomaly at the time of ephemeris is q quarters, and the angle of sine 4/5 and *)
(* cosine 3/5 if ph = 1; c is five times its sine (M0 = it - e c / 5); w: quarters *)
(* of mean anomaly per period T [ms]; o: argument of perigee, i, id: inclination *)
(* and its change per period (eighths); om, od: ascending node in the Earth-fixed *)
(* frame and its change per period (quarters); cu, ci (eighths) and cr: <<cos,  *)
(* sin>> harmonics; a0 a1 a2 clock (10^-10, 10^-13, 10^-17); dc = toe - toc [s]. *)
Root(e) == <<5, 5, 5, 4, 3>>[e + 1]                    \* 5 sqrt(1 - e^2)
Ecc(f, k) == f.q + f.w * k                             \* eccentric anomaly, quarters
\* <<cosine, sine>> of the eccentric anomaly, times 5
Ecc5(f, k) == Rot(IF f.ph = 1 THEN <<3, 4>> ELSE <<5, 0>>, Ecc(f, k))
InPlane(f, k) == LET x == Ecc5(f, k) IN <<5 * x[1] - 5 * f.e, Root(f.e) * x[2]>>    \* times 25
R25(f, k) == 25 - f.e * Ecc5(f, k)[1]
\* 25 times cosine and sine of twice the true anomaly
Odd(f, k) == f.e # 0 /\ Ecc(f, k) % 2 = 1
C2v(f, k) == IF f.e = 0 THEN 2 * Ecc5(f, k)[1] * Ecc5(f, k)[1] - 25 ELSE IF Odd(f, k) THEN 2 * f.e * f.e - 25 ELSE 25
S2v(f, k) == IF f.e = 0 THEN 2 * Ecc5(f, k)[1] * Ecc5(f, k)[2] ELSE IF Odd(f, k) THEN -2 * f.e * Root(f.e) * Sin4(Ecc(f, k)) ELSE 0
\* and of twice the argument of latitude
C2F(f, k) == C2v(f, k) * Cos4(f.o) - S2v(f, k) * Sin4(f.o)
S2F(f, k) == S2v(f, k) * Cos4(f.o) + C2v(f, k) * Sin4(f.o)
Harm25(f, k, h) == h[1] * C2F(f, k) + h[2] * S2F(f, k)
Harm(f, k, h) == IF h = <<0, 0>> THEN 0 ELSE Harm25(f, k, h) \div 25

\* (mean anomalies of more than nine turns do not come up within two weeks)
OnLattice(f, k) ==
    /\ Ecc(f, k) \in -36..36
    /\ f.c = IF f.e = 0 THEN 0 ELSE Ecc5(f, k)[2]
    /\ f.ph = 1 => (f.e # 0 => {f.cu, f.ci, f.cr} = {<<0, 0>>})
    /\ \A h \in {f.cu, f.ci, f.cr} \ {<<0, 0>>} : Harm25(f, k, h) % 25 = 0
    /\ (Odd(f, k) \/ f.ph = 1) => Harm(f, k, f.cr) % 5 = 0
    /\ (f.o + Harm(f, k, f.cu)) % 2 = 0
    /\ (f.i + Harm(f, k, f.ci) + f.id * k) % 2 = 0
    /\ Geo(f.y, f.p) => f.e = 0 /\ f.cr = <<0, 0>> /\ f.ph = 0

Plane(f, k) ==
    LET p == InPlane(f, k)
        d == Harm(f, k, f.cr)
        \* five times the direction, where there are radial corrections
        u == IF f.e = 0 THEN <<p[1] \div 5, p[2] \div 5>>
             ELSE IF Odd(f, k) THEN <<p[1] \div 5, p[2] \div 5>> ELSE <<IF p[1] > 0 THEN 5 ELSE -5, 0>>
        add(x) == (d * x) \div 5
    IN  <<4000000 * p[1] + add(u[1]), 4000000 * p[2] + add(u[2])>>

\* position in the Earth-fixed frame, in A/10^8
Position(f, k) ==
    LET p == Rot(Plane(f, k), (f.o + Harm(f, k, f.cu)) \div 2)
        i == (f.i + Harm(f, k, f.ci) + f.id * k) \div 2
        q == Rot(<<p[1], p[2] * Cos4(i)>>, f.om + f.od * k)
        z == p[2] * Sin4(i)
        m == 100000000
    IN  IF ~Geo(f.y, f.p) THEN <<q[1], q[2], z>>
        \* the plane of reference of geostationary satellites is tilted by 5 degrees
        ELSE <<q[1], (q[2] \div m) * C5 - (z \div m) * S5, (q[2] \div m) * S5 + (z \div m) * C5>>

\* numbers hi * 10^6 + lo
Norm(x) == <<x[1] + (x[2] \div 1000000), x[2] % 1000000>>
Plus(x, y) == Norm(<<x[1] + y[1], x[2] + y[2]>>)
\* 10^-17 s rounded to 10^-15 s
Round(x) == LET n == Norm(<<x[1], x[2] + 50>>) IN Norm(<<n[1] \div 100, (n[1] % 100) * 10000 + (n[2] \div 100)>>)
Near(x) == {Plus(x, <<0, d>>) : d \in {-1, 0, 1}}

Linear(a, ms) == LET r == a * (ms % 100000) IN <<a * (ms \div 100000) + (r \div 100000), (r % 100000) * 10>>
Square(a, s) == Norm(<<a * ((s * s) \div 1000000), a * ((s * s) % 1000000)>>)
Clock(f, k) ==
    LET dt == f.T * k + 1000 * f.dc
        n == f.e * f.ra * Ecc5(f, k)[2]
        h == -n * F200(f.y)[1]
        rel == <<h \div 5, ((h % 5) * 1000000 - n * F200(f.y)[2]) \div 5>>
    IN  Round(Plus(Plus(<<10 * f.a0, 0>>, Linear(f.a1, dt)),
                   Plus(IF f.a2 = 0 THEN <<0, 0>> ELSE Square(f.a2, dt \div 1000), Norm(rel))))

(* A GLONASS frame: m 0 at rest in the rotating frame (the given acceleration   *)
(* balances gravity), 1 on a circular equatorial orbit, 2 at rest in the        *)
(* inertial frame far from the Earth, 3 falling along the axis far from the     *)
(* Earth; v <<x, y, z>>/n direction; s sign of the motion; b the acceleration   *)
(* of 3 in 0.2 m/s^2, sp its speed in m/s; a0 a1 as above.                      *)
GloPos(f, t) == IF f.m = 3 THEN <<0, 0, 10 * f.sp * t + f.b * t * t>>       \* 0.1 m
                ELSE LET u == 100000000 \div f.n IN <<f.v[1] * u, f.v[2] * u, IF f.m = 2 THEN 0 ELSE f.v[3] * u>>
GloVel(f, t) == CASE f.m = 0 -> <<0, 0, 0>>
                  [] f.m = 1 -> LET u == 100000000 \div f.n IN <<-f.s * f.v[2] * u, f.s * f.v[1] * u, 0>>
                  [] f.m = 2 -> LET u == 100000000 \div f.n IN <<f.v[2] * u, -f.v[1] * u, 0>>
                  [] f.m = 3 -> <<0, 0, 10 * f.sp + 2 * f.b * t>>
GloClock(f, t) == Round(Plus(<<10 * f.a0, 0>>, Linear(f.a1, 1000 * t)))

Ok(r) == [st |-> "ok", r |-> r]

Init == fr = NoFrame /\ out = {}
Reset == fr' = NoFrame /\ out' = {Ok(<<>>)}
Set(f) == fr' = f /\ out' = {Ok(<<>>)}
\* the epoch k periods after the time of ephemeris, in any kind of seconds
Eval(k) ==
    /\ UNCHANGED fr
    /\ out' = IF fr.y \in {S, J, I} THEN {[st |-> "exc", r |-> <<>>]}
              ELSE IF ~OnLattice(fr, k) THEN {}
              ELSE {Ok(<<0>> \o Position(fr, k) \o c) : c \in Near(Clock(fr, k))}
\* the epoch t seconds after the time of ephemeris; beyond 15 minutes the state is computed, too, and marked
GEval(t) ==
    /\ UNCHANGED fr
    /\ out' = IF t > 900 \/ t < -900 THEN {Ok(<<-1>> \o GloPos(fr, t) \o GloVel(fr, t))}
              ELSE {Ok(<<0>> \o GloPos(fr, t) \o GloVel(fr, t) \o c) : c \in Near(GloClock(fr, t))}
\* the limit is exact: t milliseconds
GLimit(t) == UNCHANGED fr /\ out' = {Ok(<<IF t > 900000 \/ t < -900000 THEN -1 ELSE 0>>)}
\* the directions of the motions 0, 1 and 2 are the same at every instant: t milliseconds, |t| within 15 minutes
GEvalMs(t) ==
    /\ UNCHANGED fr
    /\ out' = {Ok(<<0>> \o GloPos(fr, 0) \o GloVel(fr, 0) \o c) : c \in Near(Round(Plus(<<10 * fr.a0, 0>>, Linear(fr.a1, t))))}
\* the worked example of the GLONASS ICD, annex J.2.1: metres
Example ==
    /\ UNCHANGED fr
    /\ out' = {Ok(<<0, 7523174 + a, -10506962 + b, 21999239 + c>>) : a \in -2..2, b \in -2..2, c \in -2..2}

Do(op, a) ==
    \/ op = "reset" /\ Reset
    \/ op \in {"set", "gset"} /\ Set(a[1])
    \/ op = "eval" /\ Eval(a[1])
    \/ op = "geval" /\ GEval(a[1])
    \/ op = "glimit" /\ GLimit(a[1])
    \/ op = "gevalms" /\ GEvalMs(a[1])
    \/ op = "example" /\ Example
Pre(op) == CASE op = "eval" -> fr # NoFrame /\ fr.y # R [] op = "gevalms" -> fr # NoFrame /\ fr.y = R /\ fr.m # 3 [] op \in {"geval", "glimit"} -> fr # NoFrame /\ fr.y = R [] OTHER -> TRUE
Bound == fr = NoFrame \/ fr.y = R \/ fr.e \in {0, 3, 4}
=============================================================================
