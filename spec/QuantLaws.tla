----------------------------- MODULE QuantLaws -----------------------------
(* The moments mean what users take them for: they do not depend on where the *)
(* source is, turn with it, and never describe an impossible ellipse.           *)
EXTENDS Quant, TLC
CONSTANT Centred
VARIABLES C, v
Init == /\ C \in {{<<0, 0>>, a, b, d} : a, b, d \in (0..2) \X (0..2)} /\ v \in [C -> 1..3]
Next == UNCHANGED <<C, v>>
Spec == Init /\ [][Next]_<<C, v>>
Map(F(_)) == LET D == {F(p) : p \in C} IN [q \in D |-> v[CHOOSE p \in C : F(p) = q]]
M(u) == IF Centred THEN Moments(DOMAIN u, u) ELSE LET m == Moments(DOMAIN u, u) IN
  [m EXCEPT !.nxx = m.t * SumOf(LAMBDA p : u[p] * p[1] * p[1], DOMAIN u)]
Shifted == M(Map(LAMBDA p : <<p[1] + 3, p[2] + 1>>)).nxx = M(v).nxx
Turned == LET a == M(v) b == M(Map(LAMBDA p : <<-p[2], p[1]>>)) IN b.nxx = a.nyy /\ b.nyy = a.nxx /\ b.nxy = -a.nxy
Mirrored == LET a == M(v) b == M(Map(LAMBDA p : <<-p[1], p[2]>>)) IN b.nxx = a.nxx /\ b.nyy = a.nyy /\ b.nxy = -a.nxy
Possible == LET a == M(v) IN a.nxx >= 0 /\ a.nyy >= 0 /\ a.nxx * a.nyy >= a.nxy * a.nxy
Scaled == LET a == M(v) b == M([p \in C |-> 2 * v[p]]) IN b.nxx = 4 * a.nxx /\ b.t = 2 * a.t
\* a uniform variance equal to the values gives the error of a counting experiment: second moment over the flux
Counting == LET a == M(v) e == Errors(C, a, v) IN Near(e.x * a.t, Second(a).x * 1000, a.t * (e.tol + 1) + 600)
Line == (\A p \in C : p[1] = p[2]) => LET s == Second(M(v)) IN s.x = s.y /\ s.xy = s.x
Magnitudes == \A n \in 1..30 : LET a == Mag(n, 2) b == Mag(2 * n, 2) IN a >= 0 /\ b = a + 75257 /\ (n > 1 => a > Mag(n - 1, 2))
=============================================================================
