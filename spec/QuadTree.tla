------------------------------ MODULE QuadTree ------------------------------
(* The design of the quad tree on a small grid: leaves with a tight box that   *)
(* split at a capacity, quadrants created on demand, growth by doubling, and   *)
(* the pruning test of the range query. All coordinates are scaled so that     *)
(* every halving stays an integer. Prune = "box" compares with the closest     *)
(* point of the box, "corner" with the closest corner (as found originally).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Grid, Scale, Cap, MaxOps, Prune, Ranges
None == [nil |-> TRUE]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* box: <<minx, miny, maxx, maxy>>
Leaf == [nil |-> FALSE, div |-> FALSE, box |-> <<0, 0, 0, 0>>, data |-> {}, kid |-> [q \in 0..3 |-> None]]
Mid(b, k) == (b[k] + b[k + 2]) \div 2
Quadrant(b, p) == (IF p[2] >= Mid(b, 1) THEN 1 ELSE 0) + (IF p[3] >= Mid(b, 2) THEN 2 ELSE 0)
Contained(b, p) == p[2] >= b[1] /\ p[2] <= b[3] /\ p[3] >= b[2] /\ p[3] <= b[4]
Divisible(b) == b[1] < Mid(b, 1) \/ b[2] < Mid(b, 2)
Grow(t, p) ==
  LET b == t.box
      nb == <<IF p[2] < b[1] THEN b[1] - (b[3] - b[1]) ELSE b[1], IF p[3] < b[2] THEN b[2] - (b[4] - b[2]) ELSE b[2],
              IF p[2] < b[1] THEN b[3] ELSE b[3] + (b[3] - b[1]), IF p[3] < b[2] THEN b[4] ELSE b[4] + (b[4] - b[2])>>
      q == Quadrant(nb, <<0, Mid(b, 1), Mid(b, 2)>>)
  IN [t EXCEPT !.box = nb, !.kid = [k \in 0..3 |-> IF k = q THEN t ELSE None]]
RECURSIVE Add(_, _), AddAll(_, _)
Add(t, p) ==
  IF t.div
  THEN IF ~Contained(t.box, p) THEN Add(Grow(t, p), p)
       ELSE LET q == Quadrant(t.box, p)
                k == IF t.kid[q].nil THEN Leaf ELSE t.kid[q]
            IN [t EXCEPT !.kid[q] = Add(k, p)]
  ELSE LET b == t.box
           nb == IF t.data = {} THEN <<p[2], p[3], p[2], p[3]>>
                 ELSE <<Min(b[1], p[2]), Min(b[2], p[3]), Max(b[3], p[2]), Max(b[4], p[3])>>
           t2 == [t EXCEPT !.box = nb, !.data = @ \cup {p}]
       IN IF Cardinality(t2.data) < Cap \/ ~Divisible(nb) THEN t2
          ELSE LET mx == Max(nb[3], nb[1] + (nb[4] - nb[2]))
                   my == Max(nb[4], nb[2] + (mx - nb[1]))
               IN [AddAll([t2 EXCEPT !.div = TRUE, !.box = <<nb[1], nb[2], mx, my>>, !.data = {}], t2.data) EXCEPT !.data = {}]
AddAll(t, ps) == IF ps = {} THEN t ELSE LET p == CHOOSE p \in ps : TRUE IN AddAll(Add(t, p), ps \ {p})
RECURSIVE Remove(_, _)
Remove(t, p) == IF t.nil THEN t
                ELSE IF t.div THEN [t EXCEPT !.kid = [q \in 0..3 |-> IF ~t.kid[q].nil /\ Contained(t.kid[q].box, p) THEN Remove(t.kid[q], p) ELSE t.kid[q]]]
                ELSE [t EXCEPT !.data = @ \ {p}]
D2(p, x, y) == (p[2] - x) * (p[2] - x) + (p[3] - y) * (p[3] - y)
Sq(a) == a * a
Visit(b, x, y, r) ==
  IF Prune = "box" THEN Sq(Max(Max(b[1] - x, x - b[3]), 0)) + Sq(Max(Max(b[2] - y, y - b[4]), 0)) <= r * r
  ELSE Min(Sq(x - b[1]), Sq(x - b[3])) + Min(Sq(y - b[2]), Sq(y - b[4])) <= r * r
RECURSIVE Query(_, _, _, _)
Query(t, x, y, r) ==
  IF t.nil THEN {}
  ELSE IF t.div THEN UNION {IF ~t.kid[q].nil /\ Visit(t.kid[q].box, x, y, r) THEN Query(t.kid[q], x, y, r) ELSE {} : q \in 0..3}
  ELSE {p \in t.data : D2(p, x, y) <= r * r}

VARIABLES tree, pts, n
vars == <<tree, pts, n>>
Init == tree = Leaf /\ pts = {} /\ n = 0
AddPoint == \E x, y \in Grid : LET p == <<n + 1, x * Scale, y * Scale>> IN tree' = Add(tree, p) /\ pts' = pts \cup {p} /\ n' = n + 1
RemovePoint == \E p \in pts : tree' = Remove(tree, p) /\ pts' = pts \ {p} /\ n' = n + 1
Next == n < MaxOps /\ (AddPoint \/ RemovePoint)
Spec == Init /\ [][Next]_vars
Exact == \A x, y \in Grid, r \in Ranges : Query(tree, x * Scale, y * Scale, r) = {p \in pts : D2(p, x * Scale, y * Scale) <= r * r}
=============================================================================
