--------------------------- MODULE DeblendTrace ----------------------------
(* Chains of real deblending steps on real groups.  For every step: the group before, the value of every source's model at
   every pixel of the group (thousandths), the group after.  Every history is run twice with a different layout of the
   memory (rep 1 and 2). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES c, l, cur, k, ids, first
tvars == <<c, l, cur, k, ids, first>>
D == INSTANCE Deblend WITH NS <- 0, NSteps <- 0, group <- {}, step <- 0, next <- 0, start <- {}
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Set(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
Src(o) == [id |-> o.sid, det |-> o.det, px |-> Set(o.px)]
Grp(q) == {Src(q[i]) : i \in 1..Len(q)}
Sound(q) == /\ \A i \in 1..Len(q) : q[i].fr /\ Cardinality(Set(q[i].px)) = Len(q[i].px)
            /\ Cardinality(Grp(q)) = Len(q)
RECURSIVE Sum(_, _)
Sum(f, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN f[x] + Sum(f, s \ {x})
Val(p) == Cfg.img[p[2] * Cfg.w + p[1] + 1] * 1000
TInit == l = 1 /\ c \in 1..Len(Cases) /\ cur = {} /\ k = 0 /\ ids = {} /\ first = <<>>
(* the cleaning: which sources would not be there without their neighbours *)
CleanOk(min) ==
  LET G == cur
      idx == TLCEval([i \in 1..Len(Ev.all) |-> <<Ev.all[i][1], Ev.all[i][2]>>])
      at == TLCEval([p \in {idx[i] : i \in 1..Len(idx)} |-> CHOOSE i \in 1..Len(idx) : idx[i] = p])
      infl == TLCEval([s \in G |-> LET m == CHOOSE m \in {Ev.model[i] : i \in 1..Len(Ev.model)} : m.sid = s.id
                                   IN [p \in D!Pixels(G) |-> m.v[at[p]]]])
      tol == Cardinality(G)
      others(s, p) == Sum([t \in G |-> infl[t][p]], G \ {s})
      sure == TLCEval([s \in G |-> Cardinality({p \in s.px : Val(p) > others(s, p) + tol})])
      most == TLCEval([s \in G |-> Cardinality({p \in s.px : Val(p) > others(s, p) - tol})])
      must == {s \in G : most[s] < min}
      may == {s \in G : sure[s] < min}
      on(s, t) == Sum(infl[t], s.px)
      out == Grp(Ev.out)
      Result(C) ==
        IF C = {} THEN out = G
        ELSE IF C = G THEN out = {}
        ELSE LET R == G \ C
                 best == TLCEval([s \in C |-> LET w == TLCEval([t \in R |-> on(s, t)]) IN {t \in R : \A u \in R : w[u] <= w[t] + 2 * Cardinality(s.px)}])
                 new == out \ R
             IN \* some choice among the (nearly) equal gives the group found
                /\ \A s \in new : s.id \notin ids
                /\ \E T \in [C -> R] : (\A s \in C : T[s] \in best[s]) /\
                     LET want == TLCEval(D!CleanResult(G, C, T, LAMBDA s : -1)) IN
                     /\ {s \in want : s.id # -1} = out \cap R
                     /\ {[det |-> s.det, px |-> s.px] : s \in {s \in want : s.id = -1}} = {[det |-> s.det, px |-> s.px] : s \in new}
                     /\ Cardinality(want) = Cardinality(out)
  IN IF Cardinality(G) <= 1 THEN out = G
     ELSE \E A \in SUBSET (may \ must) : Result(must \cup A)
\* the results of the two runs of one history are the same, in the same order
Shape == [i \in 1..Len(Ev.out) |-> <<Set(Ev.out[i].px)>>]
Step == /\ k = Ev.k /\ cur = Grp(Ev.in) /\ Sound(Ev.out)
        /\ TRUE = (CASE Ev.t = "clean" -> CleanOk(Ev.min)
                     [] Ev.t = "small" -> Grp(Ev.out) = {s \in cur : Cardinality(s.px) >= Ev.min})
        /\ cur' = Grp(Ev.out) /\ k' = k + 1 /\ ids' = ids \cup {Ev.out[i].sid : i \in 1..Len(Ev.out)}
        /\ IF Ev.rep = 1 THEN first' = Append(first, Shape)
           ELSE Len(first) > 0 /\ Head(first) = Shape /\ first' = Tail(first)
(* after the last step the group is passed on if it has sources, and only then *)
Emit == k = Cfg.n + 1 /\ cur # {} /\ Grp(Ev.src) = cur /\ Sound(Ev.src) /\ cur' = {} /\ k' = 0 /\ UNCHANGED <<ids, first>>
TNext == \/ IsEv("Feed") /\ k = 0 /\ cur = {} /\ Sound(Ev.src) /\ cur' = Grp(Ev.src) /\ k' = 1 /\ first' = first
                         /\ ids' = ids \cup {Ev.src[i].sid : i \in 1..Len(Ev.src)}
         \/ IsEv("Step") /\ Step
         \/ IsEv("Emit") /\ Emit
         \* the call returned without passing anything on
         \/ IsEv("Dropped") /\ k = Cfg.n + 1 /\ cur = {} /\ k' = 0 /\ UNCHANGED <<cur, ids, first>>
         \/ IsEv("Req") /\ k = 0 /\ UNCHANGED <<cur, k, ids, first>>
         \/ IsEv("End") /\ k = 0 /\ first = <<>> /\ UNCHANGED <<cur, k, ids, first>>
         \/ l > Len(Evs) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
