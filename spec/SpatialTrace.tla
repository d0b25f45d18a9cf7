---------------------------- MODULE SpatialTrace ----------------------------
(* A spatial index is a set of points; a range query returns exactly the      *)
(* stored points within the distance (strictly closer for the k-d tree).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, pts
tvars == <<c, l, pts>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Set(s) == {s[i] : i \in 1..Len(s)}
D2(p, x, y) == (p[2] - x) * (p[2] - x) + (p[3] - y) * (p[3] - y)
Within(x, y, r) == {p[1] : p \in {q \in pts : IF Cfg.strict THEN D2(q, x, y) < r * r ELSE D2(q, x, y) <= r * r}}
TInit == l = 1 /\ c \in 1..Len(Cases) /\ pts = {}
TNext == \/ IsEv("Add") /\ pts' = pts \cup {<<Ev.id, Ev.x, Ev.y>>}
         \/ IsEv("Remove") /\ pts' = {p \in pts : p[1] # Ev.id}
         \/ IsEv("Query") /\ Len(Ev.res) = Cardinality(Set(Ev.res)) /\ Set(Ev.res) = Within(Ev.x, Ev.y, Ev.r) /\ pts' = pts
         \/ IsEv("End") /\ pts' = pts
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
