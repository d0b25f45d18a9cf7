---------------------------- MODULE FittingLaws ----------------------------
(* A minimization: the engine evaluates the residuals at trial points (which   *)
(* leaves the parameters there), accepts or rejects them, perturbs the point   *)
(* for derivatives, and ends.  Only if it writes the accepted point back do    *)
(* the parameters hold the result.                                             *)
EXTENDS Fitting
CONSTANT WriteBack
VARIABLES best, params, pc
vars == <<best, params, pc>>
Points == (0..3) \X (0..3)
Init == best \in Points /\ params = best /\ pc = "run"
Cost(p) == ((p[1] - 2) * (p[1] - 2)) + ((p[2] - 1) * (p[2] - 1))
Try(p) == pc = "run" /\ params' = p /\ best' = (IF Cost(p) < Cost(best) THEN p ELSE best) /\ UNCHANGED pc
Perturb(i) == pc = "run" /\ params' = [best EXCEPT ![i] = @ + 1] /\ UNCHANGED <<best, pc>>
End == pc = "run" /\ pc' = "done" /\ params' = (IF WriteBack THEN best ELSE params) /\ UNCHANGED best
Next == (\E p \in Points : Try(p)) \/ (\E i \in 1..2 : Perturb(i)) \/ End \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
ResultKept == pc = "done" => params = best
Improves == [][Cost(best') <= Cost(best)]_vars
\* the maps are increasing, stay in the range, and the solution solves the normal equations
ASSUME \A lo \in {-7, 0, 3}, h \in 1..9, k \in -6..5 : SigWorld(lo, lo + h, k) < SigWorld(lo, lo + h, k + 1) /\ SigWorld(lo, lo + h, k) >= 1000 * lo /\ SigWorld(lo, lo + h, k + 1) <= 1000 * (lo + h)
ASSUME \A lo \in {-7, 0, 3}, h \in 1..9, k \in 0..6 : Near(SigSlope(lo, lo + h, k), SigSlope(lo, lo + h, -k), 2)
ASSUME \A n \in {90, 45} : \A k \in -1..0 : ExpPower(n, k) <= ExpPower(n, k + 1)
ASSUME \A a1 \in {<<1, 2>>, <<0, 1>>}, a2 \in {<<1, 0>>, <<2, -1>>}, a3 \in {<<1, 1>>, <<-1, 2>>}, d \in [1..3 -> {-3, 0, 2}], w \in [1..3 -> 1..2] :
  LET a == <<a1, a2, a3>>  s == Solve(2, a, d, w) IN
  /\ s.det > 0 /\ s.chi >= 0
  /\ (N(a, w, 1, 1) * s.num[1]) + (N(a, w, 1, 2) * s.num[2]) = B(a, d, w, 1) * s.det
  /\ (N(a, w, 2, 1) * s.num[1]) + (N(a, w, 2, 2) * s.num[2]) = B(a, d, w, 2) * s.det
=============================================================================
