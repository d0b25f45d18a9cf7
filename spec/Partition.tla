----------------------------- MODULE Partition -----------------------------
(* What partition steps may do with a detection. A detection is a set of      *)
(* pixels; val gives the values of the frame.                                 *)
EXTENDS Components, FiniteSetsExt, TLC
SumOver(f, S) == LET F(x) == f[x] IN MapThenSumSet(F, S)
(* ---- multiple thresholds ----
   T is a sequence of rising thresholds. A branch is a set of connected pixels above a threshold with at least
   `minA` pixels; where a branch falls apart into several, these become its children. *)
RECURSIVE Tree(_, _, _, _, _, _)
Tree(S, born, i, val, T, minA) ==
  IF i > Len(T) THEN [px |-> S, thr |-> born, kids |-> {}]
  ELSE LET gs == TLCEval({g \in Comps({p \in S : val[p] > T[i]}) : Cardinality(g) >= minA})
       IN CASE gs = {} -> [px |-> S, thr |-> born, kids |-> {}]
            [] Cardinality(gs) = 1 -> Tree(S, born, i + 1, val, T, minA)
            [] OTHER -> [px |-> S, thr |-> born, kids |-> {Tree(g, T[i], i + 1, val, T, minA) : g \in gs}]
Flux(n, val) == SumOver(val, n.px) - n.thr * Cardinality(n.px)
\* contrast as a fraction cp / cq of the flux of the whole
Above(n, val, total, cp, cq) == cq * Flux(n, val) > cp * total
RECURSIVE Parts(_, _, _, _, _)
Parts(n, val, total, cp, cq) ==
  LET big == {k \in n.kids : Above(k, val, total, cp, cq)}
      deep == UNION {Parts(k, val, total, cp, cq) : k \in n.kids}
  IN deep \cup (IF Cardinality(big) >= 2 THEN {k.px : k \in {k \in big : Parts(k, val, total, cp, cq) = {}}} ELSE {})
RECURSIVE Tie(_, _, _, _, _)
Tie(n, val, total, cp, cq) == \E k \in n.kids : cq * Flux(k, val) = cp * total \/ Tie(k, val, total, cp, cq)
MultiTree(S, val, T, minA) == Tree(S, 0, 1, val, T, minA)
MultiParts(S, val, T, minA, cp, cq) == Parts(MultiTree(S, val, T, minA), val, SumOver(val, S), cp, cq)
(* ---- attractors ---- steepest ascent over 4 neighbours inside the bounding box (values all different) *)
Box(S) == LET xs == {p[1] : p \in S} ys == {p[2] : p \in S} IN (MinOf(xs)..MaxOf(xs)) \X (MinOf(ys)..MaxOf(ys))
RECURSIVE Climb(_, _, _)
Climb(p, B, val) == LET c == ({<<p[1] - 1, p[2]>>, <<p[1] + 1, p[2]>>, <<p[1], p[2] - 1>>, <<p[1], p[2] + 1>>} \cap B)
                        up == TLCEval({q \in c : val[q] > val[p]})
                        best == TLCEval(IF up = {} THEN p ELSE CHOOSE q \in up : \A r \in up : val[q] >= val[r])
                    IN IF up = {} THEN p ELSE Climb(best, B, val)
\* boxes <<x1, x2, y1, y2>> that touch are joined until none do
Touch(a, b) == a[1] <= b[2] + 1 /\ b[1] <= a[2] + 1 /\ a[3] <= b[4] + 1 /\ b[3] <= a[4] + 1
Hull(a, b) == <<MinOf({a[1], b[1]}), MaxOf({a[2], b[2]}), MinOf({a[3], b[3]}), MaxOf({a[4], b[4]})>>
RECURSIVE JoinBoxes(_)
JoinBoxes(bs) == IF \E a, b \in bs : a # b /\ Touch(a, b)
                 THEN LET pr == TLCEval(CHOOSE pr \in bs \X bs : pr[1] # pr[2] /\ Touch(pr[1], pr[2]))
                          nx == TLCEval((bs \ {pr[1], pr[2]}) \cup {Hull(pr[1], pr[2])})
                      IN JoinBoxes(nx)
                 ELSE bs
In(p, b) == p[1] >= b[1] /\ p[1] <= b[2] /\ p[2] >= b[3] /\ p[2] <= b[4]
(* ---- what a split may be ---- *)
IsSplit(S, parts) == /\ Len(parts) >= 2
                     /\ \A i \in 1..Len(parts) : parts[i] # {} /\ parts[i] \subseteq S
                     /\ \A i, j \in 1..Len(parts) : i # j => parts[i] \cap parts[j] = {}
                     /\ UNION {parts[i] : i \in 1..Len(parts)} = S
=============================================================================
