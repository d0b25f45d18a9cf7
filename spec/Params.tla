------------------------------- MODULE Params -------------------------------
(* Parameters of a model: base ones that are set, and dependent ones with a    *)
(* definition in terms of others, made later than what they depend on.         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
\* a node: [base, in (nodes it depends on), co (constant and factor of each)]
RECURSIVE Lin(_, _, _)
Lin(co, vs, k) == IF k = 0 THEN co[1] ELSE Lin(co, vs, k - 1) + (co[k + 1] * vs[k])
RECURSIVE DefUp(_, _, _)
\* the values of the first k nodes
DefUp(nodes, base, k) == IF k = 0 THEN <<>> ELSE
  CHOOSE r \in {LET m == nodes[k] IN Append(p, IF m.base THEN base[k] ELSE Lin(m.co, [i \in 1..Len(m.in) |-> p[m.in[i]]], Len(m.in))) : p \in {DefUp(nodes, base, k - 1)}} : TRUE
Def(nodes, base) == DefUp(nodes, base, Len(nodes))
Inputs(m) == {m.in[i] : i \in 1..Len(m.in)}
RECURSIVE AffUp(_, _, _, _)
AffUp(nodes, n, S, k) == IF k > Len(nodes) THEN S ELSE AffUp(nodes, n, IF Inputs(nodes[k]) \cap S # {} THEN S \cup {k} ELSE S, k + 1)
\* what changes when n does
Affected(nodes, n) == AffUp(nodes, n, {n}, n + 1)
RECURSIVE AliveDown(_, _, _)
AliveDown(nodes, S, k) == IF k = 0 THEN S ELSE AliveDown(nodes, IF k \in S THEN S \cup Inputs(nodes[k]) ELSE S, k - 1)
\* what exists while H is held: a dependent parameter keeps what it depends on
Alive(nodes, H) == AliveDown(nodes, H, Len(nodes))
=============================================================================
