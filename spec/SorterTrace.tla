---------------------------- MODULE SorterTrace ----------------------------
(* What the real sorter emits: after every arrival exactly the groups that     *)
(* continue the sequence 1, 2, 3, ... of source numbers, whole and in order.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, wait, next
tvars == <<c, l, wait, next>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
MinOf(g) == CHOOSE x \in {g[i] : i \in 1..Len(g)} : \A i \in 1..Len(g) : x <= g[i]
RECURSIVE Emit(_, _, _)
Emit(w, n, o) == IF \E g \in w : MinOf(g) = n
                 THEN LET g == CHOOSE g \in w : MinOf(g) = n IN Emit(w \ {g}, n + Len(g), Append(o, g))
                 ELSE <<w, n, o>>
TInit == l = 1 /\ c \in 1..Len(Cases) /\ wait = {} /\ next = 1
TNext == \/ IsEv("Arrive") /\ LET r == Emit(wait \cup {Ev.g}, next, <<>>) IN wait' = r[1] /\ next' = r[2] /\ r[3] = Ev.out
         \/ IsEv("Signal") /\ Ev.forwarded = 1 /\ UNCHANGED <<wait, next>>
         \/ IsEv("End") /\ wait = {} /\ next = Cfg.total + 1 /\ UNCHANGED <<wait, next>>
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
