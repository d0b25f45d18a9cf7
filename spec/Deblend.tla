------------------------------ MODULE Deblend ------------------------------
(* A chain of deblending steps on a group.  Sources are records [id, det, px, orig]; what cleaning makes of a group is
   determined by the set of sources to clean and by the survivor each of them is given to. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* the group is a set of sources
Pixels(G) == UNION {s.px : s \in G}
(* C: the sources to clean, T: the survivor each of them goes to, fresh(s): the identity of the replacement of s *)
CleanResult(G, C, T, fresh(_)) ==
  LET R == G \ C
      kids(s) == {k \in C : T[k] = s}
  IN {s \in R : kids(s) = {}} \cup
     {[id |-> fresh(s), det |-> s.det, px |-> s.px \cup Pixels(kids(s))] : s \in {s \in R : kids(s) # {}}}
(* ---- the stage on its own ---- *)
CONSTANTS NS, NSteps
VARIABLES group, step, next, start
dvars == <<group, step, next, start>>
DInit == /\ start \in {{[id |-> i, det |-> d[i], px |-> {i}] : i \in 1..n} : <<n, d>> \in (1..NS) \X [1..NS -> 1..2]}
         /\ group = start /\ step = 0 /\ next = NS + 1
Clean == /\ step < NSteps /\ step' = step + 1 /\ start' = start
         /\ IF Cardinality(group) <= 1 THEN UNCHANGED <<group, next>>
            ELSE \E C \in SUBSET group :
                   IF C = group THEN group' = {} /\ next' = next
                   ELSE \E T \in [C -> group \ C] :
                          group' = CleanResult(group, C, T, LAMBDA s : next + s.id) /\ next' = 3 * next
DNext == Clean \/ (step = NSteps /\ UNCHANGED dvars)
DSpec == DInit /\ [][DNext]_dvars
Conserved == group # {} => Pixels(group) = Pixels(start)
Disjoint == \A a, b \in group : a # b => a.px \cap b.px = {} /\ a.id # b.id
Identities == {s.det : s \in group} \subseteq {s.det : s \in start}
\* every detection identity that is left is borne by pixels of a source that had it
Anchored == \A s \in group : \E o \in start : o.det = s.det /\ o.px \subseteq s.px
NoNew == Cardinality(group) <= Cardinality(start)
=============================================================================
