----------------------------- MODULE PartTrace -----------------------------
(* Chains of real partition steps: what every step did with every detection. *)
EXTENDS Partition, Json, IOUtils
VARIABLES c, l, live, gone, ids
tvars == <<c, l, live, gone, ids>>
\* live: detection handle -> [px, det, lev]
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
Steps == Cfg.steps
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Set(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
ValOf(g) == [p \in (0..g.w-1) \X (0..g.h-1) |-> g.img[p[2] * g.w + p[1] + 1]]
\* the parts the attractors make have no identity (a recorded finding)
NoId == IOEnv.KNOWN = "attractors-parts-without-id"
TInit == l = 1 /\ c \in 1..Len(Cases) /\ live = <<>> /\ gone = {} /\ ids = {}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* a detection enters the stage
Feed == /\ Ev.h \notin DOMAIN live \cup gone /\ Cardinality(Set(Ev.px)) = Len(Ev.px)
        /\ live' = Put(live, Ev.h, [px |-> Set(Ev.px), det |-> Ev.det, lev |-> 1, match |-> Ev.match]) /\ ids' = ids \cup {Ev.sid} /\ gone' = gone
\* the result of a step: forwarded unchanged, removed, or replaced
Kept == Len(Ev.out) = 1 /\ Ev.out[1].h = Ev.h /\ Set(Ev.out[1].px) = live[Ev.h].px /\ Len(Ev.out[1].px) = Cardinality(live[Ev.h].px)
        /\ Ev.out[1].det = live[Ev.h].det /\ Ev.out[1].sid = Ev.sid /\ Ev.out[1].fr
Removed == Len(Ev.out) = 0
Split(S, noid) ==
  /\ IsSplit(S, [i \in 1..Len(Ev.out) |-> Set(Ev.out[i].px)])
  /\ \A i \in 1..Len(Ev.out) : LET o == Ev.out[i] IN
       /\ Len(o.px) = Cardinality(Set(o.px)) /\ o.fr
       /\ o.h \notin DOMAIN live \cup gone /\ (\A j \in 1..Len(Ev.out) : j # i => Ev.out[j].h # o.h)
       /\ \/ o.det = live[Ev.h].det /\ o.sid \notin ids /\ \A j \in 1..Len(Ev.out) : j # i => Ev.out[j].sid # o.sid
          \/ noid /\ o.det = -1 /\ o.sid = -1
PxOf(i) == Set(Ev.out[i].px)
(* multiple thresholds: the thresholds are whole numbers when the lowest value is 5 and the highest 4 b^n *)
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Multi(st, S, Val) ==
  LET vs == TLCEval({Val[p] : p \in S})
      T == [i \in 1..(st.n - 1) |-> 4 * Pow(st.b, i)]
      exact == st.n <= 5 /\ MinOf(vs) = 5 /\ MaxOf(vs) = 4 * Pow(st.b, st.n) /\ vs \cap {T[i] : i \in 1..(st.n - 1)} = {}
      tree == TLCEval(MultiTree(S, Val, T, st.min))
      total == SumOver(Val, S)
      want == TLCEval(Parts(tree, Val, total, st.cp, 1000))
  IN IF exact /\ ~Tie(tree, Val, total, st.cp, 1000)
             THEN IF want = {} THEN Kept
                   ELSE /\ Split(S, FALSE) /\ Len(Ev.out) = Cardinality(want)
                        /\ \A L \in want : \E i \in 1..Len(Ev.out) : L \subseteq PxOf(i)
     ELSE Kept \/ Split(S, FALSE)
Attractors(S, Val) ==
  LET B == TLCEval(Box(S))
      plain == Cardinality({Val[p] : p \in B}) = Cardinality(B)
      top == TLCEval([p \in S |-> Climb(p, B, Val)])
      tops == TLCEval({top[p] : p \in S})
      boxes == TLCEval(JoinBoxes({<<t[1], t[1], t[2], t[2]>> : t \in tops}))
  IN IF ~plain THEN Kept \/ Split(S, NoId)
     ELSE \/ Kept /\ Cardinality(boxes) = 1
          \/ /\ Split(S, NoId) /\ Cardinality(tops) > 1
             /\ LET tt == TLCEval([i \in 1..Len(Ev.out) |-> {top[p] : p \in PxOf(i)}]) IN
                /\ \A i, j \in 1..Len(Ev.out) : i # j => tt[i] \cap tt[j] = {}
                /\ \A i \in 1..Len(Ev.out) : \E b \in boxes : \A t \in tt[i] : In(t, b)
DoStep == LET st == Steps[Ev.k] d == live[Ev.h] S == d.px Val == TLCEval(ValOf(Cfg)) IN
  /\ Ev.h \in DOMAIN live /\ d.lev = Ev.k /\ Set(Ev.px) = S
  /\ TRUE = (CASE st.t = "area" -> IF Cardinality(S) >= st.min THEN Kept ELSE Removed
       [] st.t = "core" -> IF Cardinality({p \in S : Val[p] >= st.snr}) >= st.min THEN Kept ELSE Removed
       [] st.t = "assoc" -> IF d.match = st.req THEN Kept ELSE Removed
       [] st.t = "multi" -> Multi(st, S, Val)
       [] st.t = "attr" -> Attractors(S, Val))
  /\ live' = [x \in (DOMAIN live \ {Ev.h}) \cup {Ev.out[i].h : i \in 1..Len(Ev.out)} |->
                IF x \in DOMAIN live /\ x # Ev.h THEN live[x]
                ELSE LET o == CHOOSE o \in {Ev.out[i] : i \in 1..Len(Ev.out)} : o.h = x
                     IN [px |-> Set(o.px), det |-> o.det, lev |-> Ev.k + 1, match |-> d.match]]
  /\ gone' = IF Kept THEN gone ELSE gone \cup {Ev.h}
  /\ ids' = ids \cup {Ev.out[i].sid : i \in 1..Len(Ev.out)}
\* what leaves the stage has been through every step
Emit == /\ Ev.h \in DOMAIN live /\ live[Ev.h].lev = Len(Steps) + 1 /\ Set(Ev.px) = live[Ev.h].px /\ Len(Ev.px) = Cardinality(Set(Ev.px))
        /\ live' = Drop(live, Ev.h) /\ gone' = gone \cup {Ev.h} /\ ids' = ids
TNext == \/ IsEv("Feed") /\ Feed
         \/ IsEv("Step") /\ DoStep
         \/ IsEv("Emit") /\ Emit
         \* a request passes through at once, behind everything that came before it
         \/ IsEv("Req") /\ live = <<>> /\ UNCHANGED <<live, gone, ids>>
         \/ IsEv("End") /\ live = <<>> /\ UNCHANGED <<live, gone, ids>>
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
