------------------------------- MODULE Sorter -------------------------------
(* Restoring the detection order: groups arrive in any order (the measurement  *)
(* finishes them in any order); group i holds the consecutive numbers          *)
(* Lo(i)..Hi(i). The sorter buffers by lowest number and emits the prefix.     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NGroups, MaxSize
VARIABLES sizes, arrived, buffer, next, out
vars == <<sizes, arrived, buffer, next, out>>
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Lo(i) == SumTo(sizes, i - 1) + 1
Init == sizes \in [1..NGroups -> 1..MaxSize] /\ arrived = {} /\ buffer = {} /\ next = 1 /\ out = <<>>
RECURSIVE Drain(_, _, _)
Drain(b, n, o) == IF b = {} THEN <<b, n, o>>
                  ELSE LET g == CHOOSE g \in b : \A h \in b : Lo(g) <= Lo(h)
                       IN IF Lo(g) = n THEN Drain(b \ {g}, n + sizes[g], Append(o, g)) ELSE <<b, n, o>>
Arrive(g) == /\ g \notin arrived /\ arrived' = arrived \cup {g}
             /\ LET r == Drain(buffer \cup {g}, next, out) IN buffer' = r[1] /\ next' = r[2] /\ out' = r[3]
             /\ UNCHANGED sizes
Next == \E g \in 1..NGroups : Arrive(g)
Spec == Init /\ [][Next]_vars
\* exactly the longest complete prefix has been emitted, in order
Prefix == /\ \A i \in 1..Len(out) : out[i] = i
          /\ Len(out) + 1 \notin arrived
          /\ buffer = arrived \ {out[i] : i \in 1..Len(out)}
Complete == arrived = 1..NGroups => Len(out) = NGroups
=============================================================================
