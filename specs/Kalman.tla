------------------------------ MODULE Kalman ------------------------------
(* The position filter: state x y z c d (position, receiver clock and its drift *)
(* in metres), covariance P.  An update moves the clock by drift times elapsed   *)
(* time and the covariance with it, adds the process noise, and then takes the   *)
(* measurements in, one satellite after the other (the implementation does that  *)
(* in one step with matrices; for independent measurements both are the same).   *)
(* Fixed-point numbers: 10^-4 m and 10^-4 m^2.  Positions are relative to the    *)
(* origin of the scenario; satellites lie in rational directions a:b:c / n from  *)
(* there, either far enough for their direction not to depend on the receiver's  *)
(* place, or anywhere while the receiver is at the origin.                       *)
EXTENDS Integers, Sequences

VARIABLES fs, out
vars == <<fs, out>>
Filters == 1..2

Abs(x) == IF x < 0 THEN -x ELSE x
Big == 2147483647
\* <<a b div c, a b mod c>> for 0 <= a, b and 0 < c < 2^30
RECURSIVE MD(_, _, _)
MD(a, b, c) ==
    IF a = 0 \/ b = 0 THEN <<0, 0>>
    ELSE IF a <= Big \div b THEN <<(a * b) \div c, (a * b) % c>>
    ELSE LET h == MD(a, b \div 2, c)
             e == IF 2 * h[2] >= c THEN <<2 * h[1] + 1, 2 * h[2] - c>> ELSE <<2 * h[1], 2 * h[2]>>
             o == <<e[1] + (a \div c), e[2] + (a % c)>>
         IN  IF b % 2 = 0 THEN e ELSE IF o[2] >= c THEN <<o[1] + 1, o[2] - c>> ELSE o
\* a b / c to the nearest integer
MulDiv(a, b, c) ==
    LET h == MD(Abs(a), Abs(b), c)
        q == h[1] + (IF 2 * h[2] >= c THEN 1 ELSE 0)
    IN  IF (a < 0) # (b < 0) THEN -q ELSE q
Div(a, n) == MulDiv(a, 1, n)

\* the upper triangle of the covariance as a tuple
Pairs == <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<2, 2>>, <<2, 3>>, <<2, 4>>, <<2, 5>>,
           <<3, 3>>, <<3, 4>>, <<3, 5>>, <<4, 4>>, <<4, 5>>, <<5, 5>>>>
Index == <<<<1, 2, 3, 4, 5>>, <<2, 6, 7, 8, 9>>, <<3, 7, 10, 11, 12>>, <<4, 8, 11, 13, 14>>, <<5, 9, 12, 14, 15>>>>
At(P, i, j) == P[Index[i][j]]
\* 50 m in each coordinate and the clock; drift variance 30
Initial == <<25000000, 0, 0, 0, 0, 25000000, 0, 0, 0, 25000000, 0, 0, 25000000, 0, 300000>>

\* h2: elapsed time in half seconds
Predict(f, h2) ==
    LET P == f.P
        R(i) == At(P, i, 4) + MulDiv(At(P, i, 5), h2, 2)
    IN  [f EXCEPT !.x = <<@[1], @[2], @[3], @[4] + MulDiv(@[5], h2, 2), @[5]>>,
                  !.P = <<P[1], P[2], P[3], R(1), P[5], P[6], P[7], R(2), P[9], P[10], R(3), P[12],
                          P[13] + h2 * P[14] + MulDiv(h2 * h2, P[15], 4) + 114,
                          P[14] + MulDiv(P[15], h2, 2) + 19, P[15] + 39>>,
                  !.e = @ + 2 + (@ * Abs(h2) * (Abs(h2) + 4)) \div 4, !.t = @ + 1 + (@ * Abs(h2)) \div 2]

\* A satellite: u <<a, b, c, n>>, z measured pseudorange minus its distance from
\* the origin (mm), j its clock correction (10^-6 s; the observation is that much
\* times the speed of light, 299792458 m/s, shorter), w weight (0.01 m^2), k 0: far away
Along(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Max5(v) == CHOOSE x \in {v[i] : i \in 1..5} : \A i \in 1..5 : v[i] <= x
Lost(f) == [f EXCEPT !.ok = FALSE]
Take(f, s, weighted) ==
    LET P == f.P
        G(i) == At(P, i, 4) - Div(s.u[1] * At(P, i, 1) + s.u[2] * At(P, i, 2) + s.u[3] * At(P, i, 3), s.u[4])
        g == <<G(1), G(2), G(3), G(4), G(5)>>
        r == IF weighted THEN 1000000 + 100 * s.w ELSE 0
        S == g[4] - Div(Along(s.u, g), s.u[4]) + r
        v == 10 * s.z + Div(Along(s.u, f.x), s.u[4]) - f.x[4]
        X(i) == f.x[i] + MulDiv(g[i], v, S)
        N(i, j) == At(P, i, j) - MulDiv(g[i], g[j], S)
        L(k) == N(Pairs[k][1], Pairs[k][2])
            \* the square of the norm of I - K h, which rounding errors made before are multiplied with [1/1000]
            a == MulDiv(1000, S - r, S)
            k == <<MulDiv(1000, g[1], S), MulDiv(1000, g[2], S), MulDiv(1000, g[3], S), MulDiv(1000, g[4], S), MulDiv(1000, g[5], S)>>
            tr == 2005 - 2 * a + (2 * (k[1] * k[1] + k[2] * k[2] + k[3] * k[3] + k[4] * k[4] + k[5] * k[5])) \div 1000
            det == ((1000 - a) * (1000 - a)) \div 1000
            Less(x) == tr - (1000 * det) \div x
            q == 2 + Less(Less(Less(Less(tr))))
            e == 5 + (f.e * q) \div 1000
        IN  \* too much precision lost: satellites too close to each other for their weights
            IF ~f.ok \/ S >= 1000000000 \/ S < 10000 \/ Max5(<<Abs(g[1]), Abs(g[2]), Abs(g[3]), Abs(g[4]), Abs(g[5])>>) \div 5 > S
               \/ e > 5000 \/ 20 * e > S \/ f.t > 5000 THEN Lost(f)
            ELSE [f EXCEPT !.x = <<X(1), X(2), X(3), X(4), X(5)>>,
                           !.P = <<L(1), L(2), L(3), L(4), L(5), L(6), L(7), L(8), L(9), L(10), L(11), L(12), L(13), L(14), L(15)>>,
                           !.e = e,
                           !.t = 3 + (@ * q) \div 1000 + 2 * MulDiv(e, Abs(v) \div 10, S) * 10]
RECURSIVE TakeAll(_, _, _)
TakeAll(f, ss, weighted) == IF ss = <<>> THEN f ELSE TakeAll(Take(f, Head(ss), weighted), Tail(ss), weighted)

Decidable(f, ss, weighted) ==
    /\ \A i \in 1..3 : Abs(f.x[i]) <= 200000000
    /\ Abs(f.x[4]) <= 1000000000
    /\ f.P[13] <= 900000000
    /\ (\E i \in 1..Len(ss) : ss[i].k # 0) => <<f.x[1], f.x[2], f.x[3]>> = <<0, 0, 0>>
    /\ ~weighted => Len(ss) <= 4      \* (more are not determined by the equations)
Update(f, h2, ss, weighted) ==
    LET p == Predict(f, h2)
    IN  IF ~f.ok \/ f.P[15] > 400000 \/ Abs(h2) > 100 \/ f.e > 5000 \/ f.t > 5000 \/ Abs(f.x[5]) > 10000000 \/ p.e > 5000 \/ p.t > 5000 \/ ~Decidable(p, ss, weighted) THEN Lost(f)
        ELSE [TakeAll(p, ss, weighted) EXCEPT !.n = 1]

\* What is reported (millimetres) against the state
\* (t, e: bounds of the rounding errors made here in the state and the covariance)
Near(r, x, t) == Abs(r) <= 200000000 /\ Abs(r - (x \div 10)) <= 2 + t \div 10
Deviation(s, P, e) ==
    \/ P <= e /\ s < 0                                  \* not a number, next to 0
    \/ s >= 0 /\ s <= 400000 /\ MulDiv(s - 1, s - 1, 100) <= P + e /\ MulDiv(s + 1, s + 1, 100) >= P - e
Accepts(x, r) ==
    /\ Len(r) = 10
    /\ \A i \in 1..5 : Near(r[2 * i - 1], x.x[i], x.t)
    /\ x.n = 0 \/ \A i \in 1..5 : Deviation(r[2 * i], At(x.P, i, i), x.e)
Ok(f) == IF f.ok THEN {[st |-> "ok", r |-> f]} ELSE {}

None == [n |-> 0, ok |-> FALSE, e |-> 0, t |-> 0, x |-> <<0, 0, 0, 0, 0>>, P |-> Initial]
Init == fs = [f \in Filters |-> None] /\ out = {}
Reset == fs' = [f \in Filters |-> None] /\ out' = {}
\* x: metres and metres per second
New(f, x) ==
    LET g == [None EXCEPT !.ok = TRUE, !.x = <<10000 * x[1], 10000 * x[2], 10000 * x[3], 10000 * x[4], 10000 * x[5]>>]
    IN  fs' = [fs EXCEPT ![f] = g] /\ out' = Ok(g)
Upd(f, h2, ss, weighted) ==
    LET g == Update(fs[f], h2, ss, weighted)
    IN  fs' = [fs EXCEPT ![f] = g] /\ out' = Ok(g)
Copy(f, g) == fs' = [fs EXCEPT ![g] = fs[f]] /\ out' = Ok(fs[f])
Show(f) == UNCHANGED fs /\ out' = Ok(fs[f])

Do(op, a) ==
    \/ op = "reset" /\ Reset
    \/ op = "new" /\ New(a[1], a[2])
    \/ op = "upd" /\ Upd(a[1], a[2], a[3], a[4])
    \/ op = "copy" /\ Copy(a[1], a[2])
    \/ op = "show" /\ Show(a[1])

\* the covariance stays one: variances not negative, nowhere more correlated than 1
Covariance == \A f \in Filters : fs[f].ok =>
    LET P == fs[f].P IN \A i \in 1..5 : At(P, i, i) >= -fs[f].e
===========================================================================
