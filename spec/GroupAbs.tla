----------------------------- MODULE GroupAbs -----------------------------
(* What grouping promises: the sources it holds are partitioned; a new       *)
(* source is merged with every stored group that has a member related to it  *)
(* (without a limit), or with a maximal choice of them that keeps the group   *)
(* within the limit, the others staying stored or being released whole; a    *)
(* process request releases exactly the groups with a selected member.       *)
EXTENDS Naturals, FiniteSets, Sequences

\* The possible outcomes <<groups kept, groups released>> of receiving x. P: the stored groups; Rel: the set of stored
\* sources x is related to; limit: 0 or the maximal group size; spill: whether groups that do not fit are released.
Touched(P, Rel) == {G \in P : G \cap Rel # {}}
Size(M) == Cardinality(UNION M)
Merge(P, x, M) == (P \ M) \cup {UNION M \cup {x}}
Choices(P, Rel, limit) ==
  IF limit = 0 THEN {Touched(P, Rel)}
  ELSE {M \in SUBSET Touched(P, Rel) :
          /\ M # {} => 1 + Size(M) <= limit
          /\ \A G \in Touched(P, Rel) \ M : 1 + Size(M) + Cardinality(G) > limit}
Receive(P, x, Rel, limit, spill) ==
  {IF spill THEN <<Merge(P, x, M) \ (Touched(P, Rel) \ M), Touched(P, Rel) \ M>> ELSE <<Merge(P, x, M), {}>>
     : M \in Choices(P, Rel, limit)}
Select(P, Sel) == <<{G \in P : G \cap Sel = {}}, {G \in P : G \cap Sel # {}}>>
=============================================================================
