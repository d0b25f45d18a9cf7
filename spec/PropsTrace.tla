---------------------------- MODULE PropsTrace -----------------------------
(* Histories of requests, settings and membership changes on real sources and groups with generated tasks.  Every value made
   by a task or set by hand carries the next number. *)
EXTENDS Props, Json, IOUtils
VARIABLES c, l, S
tvars == <<c, l, S>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ S = New(Len(Cases[c].cfg.p), Cases[c].cfg.ns, Cases[c].cfg.ng)
\* the answer: the value (0 for PropertyNotFoundException), from the address it has always been at
Answer(r) == /\ Ev.v = r.v /\ Ev.same /\ Ev.n = r.S.n /\ S' = r.S
TNext == \/ IsEv("Get") /\ Answer(Get(Cfg.p, S, Ev.s, Ev.p))
         \/ IsEv("GetG") /\ Answer(GetGrp(Cfg.p, S, Ev.g, Ev.p))
         \/ IsEv("Set") /\ S' = Set(S, Ev.s, Ev.p)
         \/ IsEv("SetG") /\ S' = SetG(S, Ev.g, Ev.p)
         \/ IsEv("Add") /\ S' = Add(S, Ev.s, Ev.g)
         \/ IsEv("Remove") /\ S' = Remove(S, Ev.s, Ev.g)
         \/ IsEv("Merge") /\ S' = Merge(S, Ev.g, Ev.h)
         \/ IsEv("End") /\ S' = S
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
