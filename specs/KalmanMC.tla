------------------------------ MODULE KalmanMC ------------------------------
EXTENDS Kalman, TLC, Json
CONSTANTS Scope, Deep, Depth
VARIABLE hist

Sat(u, k) == [u |-> u, z |-> 0, j |-> 0, w |-> 0, k |-> k]
\* satellites along the axes and off them, near and far
Sats == <<Sat(<<1, 0, 0, 1>>, 0), Sat(<<0, -1, 0, 1>>, 0), Sat(<<0, 0, 1, 1>>, 0), Sat(<<3, 4, 0, 5>>, 0), Sat(<<-2, 2, 1, 3>>, 0), Sat(<<6, -2, 3, 7>>, 0),
          Sat(<<-1, 0, 0, 1>>, 0), Sat(<<1, 4, -8, 9>>, 0), Sat(<<0, -3, -4, 5>>, 0), Sat(<<-6, -6, 7, 11>>, 0)>>
Zs == IF Deep THEN {0, 12345, -200000} ELSE {0, -35000}
Ws == {0, -9000, 40000}
K(s) == 0

\* "one": one update of a fresh filter, any geometry
OneSats == {[Sats[i] EXCEPT !.z = z, !.w = w, !.k = k] : i \in 1..Len(Sats), z \in Zs, w \in {0, -9000}, k \in {0, 7}}
\* "hist": a few epochs
Epochs == {
  <<[Sats[1] EXCEPT !.z = 5000, !.w = -5000], [Sats[2] EXCEPT !.z = -9000], [Sats[3] EXCEPT !.z = 100, !.j = 100], [Sats[7] EXCEPT !.z = 7000, !.w = 3000], [Sats[8] EXCEPT !.j = -300]>>,
  <<[Sats[4] EXCEPT !.z = -2000, !.w = 12300], [Sats[5] EXCEPT !.z = 4000], [Sats[6] EXCEPT !.z = 4000, !.j = 31], [Sats[10] EXCEPT !.z = -8123, !.w = -9000]>>,
  <<[Sats[9] EXCEPT !.z = 60000, !.w = -9900]>>,
  <<>>,
  <<Sats[1], Sats[7], Sats[2], Sats[3], Sats[5], Sats[8], Sats[10], Sats[4]>>}
Starts == {<<0, 0, 0, 0, 0>>, <<120, -45, 7, 300, -12>>}
Steps == IF Deep THEN {0, 1, 2, 60, -2, 7} ELSE {0, 2, 60}

One(op, a) == <<op, a>>
Calls ==
  CASE Scope = "one" ->
       (CASE Len(hist) = 0 -> {<<"new", <<1, <<0, 0, 0, c, d>>>>>> : c \in {0, -40}, d \in {0, 3}}
          [] OTHER -> {<<"upd", <<1, h, ss, w>>>> : h \in {0, 4}, w \in BOOLEAN,
                        ss \in {<<>>} \cup {<<s>> : s \in OneSats} \cup (IF Deep THEN {<<s, t>> : s \in {x \in OneSats : x.k = 0}, t \in {x \in OneSats : x.k = 7 /\ x.w = 0}} ELSE {<<s, t>> : s \in {x \in OneSats : x.k = 0 /\ x.w = 0}, t \in {x \in OneSats : x.k = 7 /\ x.w # 0 /\ x.z # 0}})})
    [] Scope = "hist" ->
       (CASE Len(hist) = 0 -> {<<"new", <<1, x>>>> : x \in Starts}
          [] OTHER -> {<<"upd", <<1, h, ss, TRUE>>>> : h \in Steps, ss \in Epochs}
                      \cup {<<"upd", <<1, h, ss, FALSE>>>> : h \in {0, 2}, ss \in {e \in Epochs : Len(e) <= 4}})
    [] Scope = "two" ->
       (CASE Len(hist) = 0 -> {<<"new", <<1, <<0, 0, 0, 0, 0>>>>>>}
          [] Len(hist) = 1 -> {<<"new", <<2, <<10, 20, -30, 100, 5>>>>>>}
          [] OTHER -> {<<"upd", <<f, 2, ss, TRUE>>>> : f \in Filters, ss \in {e \in Epochs : Len(e) \in {1, 4}}}
                      \cup {<<"copy", <<1, 2>>>>, <<"copy", <<2, 1>>>>, <<"show", <<1>>>>, <<"show", <<2>>>>, <<"new", <<1, <<-7, 0, 8, 0, 1>>>>>>})
MCInit == Init /\ hist = <<>>
MCNext == Len(hist) < Depth /\ \E c \in Calls : Do(c[1], c[2]) /\ hist' = Append(hist, [op |-> c[1], a |-> c[2]])
Emit == Len(hist') = Depth => PrintT("HIST:" \o ToJson(hist'))

\* Sanity of the specification
Close(f, g) == ~f.ok \/ ~g.ok \/ \A i \in 1..5 : Abs(f.x[i] - g.x[i]) <= f.t + g.t /\ Abs(At(f.P, i, i) - At(g.P, i, i)) <= f.e + g.e
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Last == hist[Len(hist)]
\* the order of the satellites does not matter
Order == [][Last'.op = "upd" =>
             LET a == Last'.a IN Close(fs'[a[1]], Update(fs[a[1]], a[2], Reverse(a[3]), a[4]))]_<<vars, hist>>
\* measurements as predicted change the covariance only
Predicted == [][Last'.op = "upd" =>
             LET a == Last'.a
                 p == Predict(fs[a[1]], a[2])
                 zero(s) == 10 * s.z + Div(Along(s.u, p.x), s.u[4]) - p.x[4] = 0
             IN  (fs'[a[1]].ok /\ \A i \in 1..Len(a[3]) : zero(a[3][i])) => fs'[a[1]].x = p.x]_<<vars, hist>>
\* no measurement makes it less certain
Certain == [][Last'.op = "upd" =>
             LET a == Last'.a
                 p == Predict(fs[a[1]], a[2])
             IN  fs'[a[1]].ok => \A i \in 1..5 : At(fs'[a[1]].P, i, i) <= At(p.P, i, i) + fs'[a[1]].e]_<<vars, hist>>
=============================================================================
