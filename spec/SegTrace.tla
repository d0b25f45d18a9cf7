------------------------------ MODULE SegTrace ------------------------------
(* What the real segmentation published for a frame: exactly the connected     *)
(* components of the pixels that are above the threshold.                      *)
EXTENDS Components, TLC, Json, IOUtils
VARIABLES c, l, left, ids, pos, done
tvars == <<c, l, left, ids, pos, done>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
OnOf(k) == LET g == Cases[k].cfg IN {<<x, y>> \in (0..g.w-1) \X (0..g.h-1) : g.on[y * g.w + x + 1] = 1}
Set(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Small(C) == Cfg.alg # "BFS" \/ (Extent(C, 1) <= Cfg.delta /\ Extent(C, 2) <= Cfg.delta)
Lutz == Cfg.alg = "LUTZ"
TInit == /\ l = 1 /\ c \in 1..Len(Cases) /\ ids = {} /\ pos = 0 /\ done = FALSE
         /\ left = LET g == Cases[c].cfg
                       cs == Comps(OnOf(c))
                   IN {C \in cs : g.alg # "BFS" \/ (Extent(C, 1) <= g.delta /\ Extent(C, 2) <= g.delta)}
Pub == LET C == Set(Ev.px) IN
       /\ ~done /\ C \in left /\ Cardinality(C) = Len(Ev.px) /\ Ev.fr
       /\ Ev.id \notin ids /\ Ev.det = Ev.id
       /\ left' = left \ {C} /\ ids' = ids \cup {Ev.id} /\ UNCHANGED <<pos, done>>
\* one pass labelling: a component is out when the line after its last one has been labelled
Prog == /\ ~done /\ Ev.total = Cfg.h /\ Ev.pos > pos /\ Ev.pos <= Cfg.h /\ pos' = Ev.pos
        /\ Lutz => \A C \in left : MaxOf({p[2] : p \in C}) >= Ev.pos - 1
        /\ UNCHANGED <<left, ids, done>>
Req == /\ ~done
       /\ IF Ev.all THEN left = {} /\ done' = TRUE
          ELSE Lutz /\ Cfg.window > 0 /\ pos > Cfg.window /\ Ev.line = pos - Cfg.window /\ done' = FALSE
       /\ UNCHANGED <<left, ids, pos>>
TNext == \/ IsEv("Pub") /\ Pub
         \/ IsEv("Prog") /\ Prog
         \/ IsEv("Req") /\ Req
         \/ IsEv("End") /\ done /\ left = {} /\ (Lutz /\ ~Cfg.slim => pos = Cfg.h) /\ UNCHANGED <<left, ids, pos, done>>
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
