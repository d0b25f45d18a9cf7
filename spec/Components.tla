---------------------------- MODULE Components -----------------------------
(* Connected components of a set of pixels <<x, y>> with 8 neighbours.        *)
EXTENDS Integers, FiniteSets, Sequences
Nb(p) == {<<p[1] + dx, p[2] + dy>> : dx \in -1..1, dy \in -1..1} \ {p}
RECURSIVE Grow(_, _, _)
\* everything of `rest` that can be reached from the front `f`; `acc` has been reached already
Grow(f, acc, rest) == LET n == UNION {Nb(p) : p \in f} \cap rest
                      IN IF n = {} THEN acc ELSE Grow(n, acc \cup n, rest \ n)
CompOf(p, S) == Grow({p}, {p}, S \ {p})
RECURSIVE Comps(_)
Comps(S) == IF S = {} THEN {} ELSE LET C == CompOf(CHOOSE p \in S : TRUE, S) IN {C} \cup Comps(S \ C)
Connected(S) == S # {} => CompOf(CHOOSE p \in S : TRUE, S) = S
MinOf(S) == CHOOSE m \in S : \A k \in S : m <= k
MaxOf(S) == CHOOSE m \in S : \A k \in S : m >= k
Extent(S, i) == LET V == {p[i] : p \in S} IN MaxOf(V) - MinOf(V)
=============================================================================
