----------------------------- MODULE GroupTrace -----------------------------
(* What the real grouping stages released, checked against GroupAbs. The      *)
(* relation comes from the attributes of the sources, as documented for each   *)
(* algorithm. The stored groups are not visible from outside, so the trace     *)
(* specification carries the set of all partitions that are still possible.    *)
EXTENDS GroupAbs, Integers, TLC, Json, IOUtils
VARIABLES c, l, attr, poss, gone
tvars == <<c, l, attr, poss, gone>>
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Set(s) == {s[i] : i \in 1..Len(s)}
Out == [i \in 1..Len(Ev.out) |-> Set(Ev.out[i])]
OutSet == Set(Out)
\* nothing twice, no empty group
Proper == /\ \A i \in 1..Len(Ev.out) : Ev.out[i] # <<>> /\ Cardinality(Out[i]) = Len(Ev.out[i])
          /\ Cardinality(OutSet) = Len(Ev.out)
          /\ \A A, B \in OutSet : A # B => A \cap B = {}
          /\ UNION OutSet \cap gone = {}
Imp(x, a, y, which) == LET k == CHOOSE k \in 1..Len(a.imp) : a.imp[k][1] = y IN a.imp[k][which]
Related(x, a, y) ==
  LET b == attr[y] IN
  CASE Cfg.algo = "none" -> FALSE
    [] Cfg.algo = "overlap" -> /\ a.box[1] <= b.box[3] /\ b.box[1] <= a.box[3]
                               /\ a.box[2] <= b.box[4] /\ b.box[2] <= a.box[4]
    [] Cfg.algo = "split" -> a.det = b.det
    [] Cfg.algo = "assoc" -> a.gid # 0 /\ a.gid = b.gid
    [] Cfg.algo = "moffat" ->
         /\ (a.cx - b.cx) * (a.cx - b.cx) + (a.cy - b.cy) * (a.cy - b.cy) <= Cfg.maxdist * Cfg.maxdist
         /\ \/ a.it > 0 /\ Imp(x, a, y, 2) > Cfg.thr
            \/ b.it > 0 /\ Imp(x, a, y, 3) > Cfg.thr
Spilling == Cfg.algo \in {"split", "assoc", "moffat"}
Held == DOMAIN attr \ gone

TInit == l = 1 /\ c \in 1..Len(Cases) /\ attr = <<>> /\ poss = {{}} /\ gone = {}
Recv == /\ Ev.x = Len(attr) + 1
        /\ LET rel == {y \in Held : Related(Ev.x, Ev.a, y)}
           IN poss' = {r[1] : r \in {s \in UNION {Receive(P, Ev.x, rel, Cfg.limit, Spilling) : P \in poss} : s[2] = OutSet}}
        /\ attr' = Append(attr, Ev.a) /\ gone' = gone \cup UNION OutSet /\ Proper
Sel == IF Ev.kind = "all" THEN Held ELSE {y \in Held : attr[y].cy < Ev.line}
Proc == /\ poss' = {r[1] : r \in {s \in {Select(P, Sel) : P \in poss} : s[2] = OutSet}}
        /\ attr' = attr /\ gone' = gone \cup UNION OutSet /\ Proper
TNext == \/ IsEv("Recv") /\ Recv /\ poss' # {}
         \/ IsEv("Proc") /\ Proc /\ poss' # {}
         \/ IsEv("End") /\ Held = {} /\ UNCHANGED <<attr, poss, gone>>
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
