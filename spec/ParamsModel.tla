---------------------------- MODULE ParamsModel ----------------------------
(* How the values are kept: a dependent parameter caches its value, computes   *)
(* it when asked while nobody watches it, and when told by an input while      *)
(* somebody does.  Before the repair the cache was not brought up to date when *)
(* the first watcher came (Refresh = FALSE), and a dropped parameter was still *)
(* told (Forget = FALSE).                                                      *)
EXTENDS Params
CONSTANTS N, Vals, Refresh, Forget
VARIABLES nodes, base, cache, watched, obs, gone, toldDead
\* obs[n]: the observers of n in the order they registered: dependents as positive numbers, the outside as 0
vars == <<nodes, base, cache, watched, obs, gone, toldDead>>
Graphs == {g \in [1..N -> SUBSET (1..(N-1))] : g[1] = {} /\ \A n \in 2..N : \A i \in g[n] : i < n}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o Asc(S \ {m})
Dependents(n) == Asc({m \in 1..N : m > n /\ n \in Inputs(nodes[m])})
Observed(n, ob) == ob[n] # <<>>
\* the value the code returns and the caches it leaves
RECURSIVE Get(_, _, _)
Get(n, ca, ob) == IF nodes[n].base THEN ca[n] ELSE IF Observed(n, ob) THEN ca[n]
                  ELSE Lin(nodes[n].co, [i \in 1..Len(nodes[n].in) |-> Get(nodes[n].in[i], ca, ob)], Len(nodes[n].in))
Compute(n, ca, ob) == Lin(nodes[n].co, [i \in 1..Len(nodes[n].in) |-> Get(nodes[n].in[i], ca, ob)], Len(nodes[n].in))
\* depth first, in the order of registration
RECURSIVE Put(_, _, _), Tell(_, _, _)
Put(n, v, s) == Tell(n, 1, [s EXCEPT !.ca[n] = v])
Tell(n, k, s) == IF k > Len(obs[n]) THEN s
                 ELSE LET m == obs[n][k] IN
                      IF m = 0 THEN Tell(n, k + 1, s)
                      ELSE IF m \in gone THEN Tell(n, k + 1, [s EXCEPT !.dead = TRUE])
                      ELSE Tell(n, k + 1, IF Observed(m, obs) THEN Put(m, Compute(m, s.ca, obs), s) ELSE s)
Mk(g) == [n \in 1..N |-> IF g[n] = {} THEN [base |-> TRUE, in |-> <<>>, co |-> <<0>>]
                          ELSE [base |-> FALSE, in |-> Asc(g[n]), co |-> <<1>> \o [i \in 1..Cardinality(g[n]) |-> i + 1]]]
Init == \E g \in Graphs :
  /\ nodes = Mk(g) /\ base = [n \in 1..N |-> 0] /\ cache = Def(Mk(g), [n \in 1..N |-> 0])
  /\ watched = {} /\ gone = {} /\ toldDead = FALSE
  /\ obs = [n \in 1..N |-> Asc({m \in 1..N : m > n /\ n \in g[m]})]
Set(n, v) == /\ nodes[n].base /\ n \notin gone /\ base' = [base EXCEPT ![n] = v]
             /\ \E s \in {Put(n, v, [ca |-> cache, dead |-> toldDead])} : cache' = s.ca /\ toldDead' = s.dead
             /\ UNCHANGED <<nodes, watched, obs, gone>>
Watch(n) == /\ n \notin watched /\ n \notin gone /\ watched' = watched \cup {n} /\ obs' = [obs EXCEPT ![n] = Append(@, 0)]
            /\ cache' = IF Refresh THEN [cache EXCEPT ![n] = Get(n, cache, obs)] ELSE cache
            /\ UNCHANGED <<nodes, base, gone, toldDead>>
Unwatch(n) == /\ n \in watched /\ n \notin gone /\ watched' = watched \ {n} /\ obs' = [obs EXCEPT ![n] = SelectSeq(@, LAMBDA m : m # 0)]
              /\ UNCHANGED <<nodes, base, cache, gone, toldDead>>
\* the last that nobody depends on any more is dropped
Drop(n) == /\ n \notin gone /\ ~nodes[n].base /\ (\A m \in 1..N : n \in Inputs(nodes[m]) => m \in gone)
           /\ gone' = gone \cup {n} /\ watched' = watched \ {n}
           /\ obs' = IF Forget THEN [k \in 1..N |-> SelectSeq(obs[k], LAMBDA m : m # n)] ELSE obs
           /\ UNCHANGED <<nodes, base, cache, toldDead>>
Next == \E n \in 1..N : Watch(n) \/ Unwatch(n) \/ Drop(n) \/ \E v \in Vals : Set(n, v)
Spec == Init /\ [][Next]_vars
Right == \A n \in (1..N) \ gone : Get(n, cache, obs) = Def(nodes, base)[n]
DeadNotTold == ~toldDead
=============================================================================
