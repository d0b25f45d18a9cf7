--------------------------- MODULE PrefetchTrace ---------------------------
(* Is what the real prefetching stage did a behaviour of PrefetchAbs?        *)
EXTENDS PrefetchAbs, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
PropSet == {Cfg.props[i] : i \in 1..Len(Cfg.props)}

TInit == AInit /\ l = 1 /\ c \in 1..Len(Cases)
TNext == \/ IsEv("Feed") /\ AFeed(Ev.id)
         \/ IsEv("Accept") /\ AAccept(Cfg.maxq)
         \/ IsEv("Signal") /\ ASignal(Ev.id)
         \/ IsEv("Compute") /\ ACompute(Ev.id, Ev.p)
         \/ IsEv("Deliver") /\ ADeliver(Ev.k, Ev.id, PropSet)
         \/ IsEv("Drained") /\ ADrained
         \/ IsEv("End") /\ nout = Len(fed) /\ UNCHANGED avars
         \/ l > Len(Evs) /\ UNCHANGED <<avars, c, l>>
TSpec == TInit /\ [][TNext]_<<avars, c, l>>
Ordered == nout <= Len(fed)
=============================================================================
