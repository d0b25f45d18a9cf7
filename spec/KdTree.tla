------------------------------- MODULE KdTree -------------------------------
(* The search structure of the association: points are halved along alternating axes, whatever way equal coordinates are sorted, until
   at most Leaf are together; a search goes down the halves that its circle may touch.
   It finds what a look at every point finds, in the catalogue's order.  Coordinates are doubled: a split may lie between points. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS Size,     \* coordinates 0, 2 .. 2 * Size
          Points,   \* how many
          Leaf,
          Radii,    \* doubled
          Flaw      \* "none", "strict": never both halves, "order": as found
ASSUME Flaw \in {"none", "strict", "order"}
VARIABLES pts,      \* the catalogue
          parts,    \* the parts of the tree so far: [ids, axis, path], path: the sides [axis, value, side] they are on
          query, found
vars == <<pts, parts, query, found>>
Coords == { 2 * k : k \in 0..Size }
At(i, axis) == pts[i][axis]
Init == /\ pts \in [1..Points -> Coords \X Coords]
        /\ parts = <<[ids |-> [i \in 1..Points |-> i], axis |-> 1, path |-> <<>>]>>
        /\ query = <<>> /\ found = <<>>
\* sorted along the axis: any order of equal ones
Sorted(s, axis) == \A i \in 1..Len(s) - 1 : At(s[i], axis) <= At(s[i + 1], axis)
SetOf(s) == { s[i] : i \in 1..Len(s) }
Orders(S) == { s \in [1..Cardinality(S) -> S] : SetOf(s) = S }
Big == { k \in 1..Len(parts) : Len(parts[k].ids) > Leaf }
\* the first part that is too large, from the left
Split ==
  /\ query = <<>> /\ Big # {}
  /\ LET k == CHOOSE k \in Big : \A j \in Big : k <= j
         p == parts[k]  n == Len(p.ids)  h == n \div 2 IN
     \E s \in { o \in Orders(SetOf(p.ids)) : Sorted(o, p.axis) } :
       LET a == At(s[h], p.axis)  b == At(s[h + 1], p.axis)
           v == (a + b) \div 2
           half(ids, side) == [ids |-> ids, axis |-> 3 - p.axis, path |-> Append(p.path, [axis |-> p.axis, v |-> v, side |-> side])] IN
       parts' = SubSeq(parts, 1, k - 1) \o <<half(SubSeq(s, 1, h), "left"), half(SubSeq(s, h + 1, n), "right")>> \o SubSeq(parts, k + 1, Len(parts))
  /\ UNCHANGED <<pts, query, found>>
Left(q, r, d) == q[d.axis] + r < d.v
Right(q, r, d) == q[d.axis] - r > d.v
Enters(q, r, d) == CASE Left(q, r, d) -> d.side = "left"
                     [] ~Left(q, r, d) /\ Right(q, r, d) -> d.side = "right"
                     [] OTHER -> CASE Flaw = "strict" -> d.side = IF q[d.axis] <= d.v THEN "left" ELSE "right" [] OTHER -> TRUE
Visited(q, r, p) == \A i \in 1..Len(p.path) : Enters(q, r, p.path[i])
Dist2(i, q) == (pts[i][1] - q[1]) * (pts[i][1] - q[1]) + (pts[i][2] - q[2]) * (pts[i][2] - q[2])
Inside(i, q, r) == Dist2(i, q) < r * r
RECURSIVE Concat(_, _, _)
Concat(k, q, r) == IF k = 0 THEN <<>> ELSE LET In(i) == Inside(i, q, r) IN Concat(k - 1, q, r) \o (IF Visited(q, r, parts[k]) THEN SelectSeq(parts[k].ids, In) ELSE <<>>)
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A o \in S : m <= o IN <<m>> \o InOrder(S \ {m})
Search ==
  /\ query = <<>> /\ Big = {}
  /\ \E x, y \in -2..2 * Size + 2, r \in Radii :
       /\ query' = <<x, y, r>>
       /\ LET f == Concat(Len(parts), <<x, y>>, r) IN found' = IF Flaw = "order" THEN f ELSE InOrder(SetOf(f))
  /\ UNCHANGED <<pts, parts>>
Next == Split \/ Search
Spec == Init /\ [][Next]_vars
\* every point is in one part
Whole == /\ \A i \in 1..Points : Cardinality({ k \in 1..Len(parts) : i \in SetOf(parts[k].ids) }) = 1
         /\ \A k \in 1..Len(parts) : parts[k].ids # <<>>
Exact == query # <<>> => SetOf(found) = { i \in 1..Points : Inside(i, <<query[1], query[2]>>, query[3]) }
Ordered == query # <<>> => \A i \in 1..Len(found) - 1 : found[i] < found[i + 1]
=============================================================================
