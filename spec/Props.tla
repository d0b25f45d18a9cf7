------------------------------- MODULE Props -------------------------------
(* Properties on demand.  P[p] = [kind, deps]: who can compute property p and what it reads first.
     "none"  nobody        "src"  a task on a single source         "grp" a task setting it on the group
     "each"  a task on the group setting it on every member         "both" both
   A dependency is <<"m", d>> (of the source, or of every member of the group) or <<"g", d>> (of the group).
   A state S: own[s][p] what source s has itself, ent[s][p] what was put on s as a member of its group, grp[g][p] what the
   group has, mem[g] its members in order, n the number of values made.  0 is "nothing". *)
EXTENDS Integers, Sequences, FiniteSets, TLC
GroupKinds == {"grp", "each", "both"}
GroupOf(S, s) == CHOOSE g \in DOMAIN S.mem : \E i \in 1..Len(S.mem[g]) : S.mem[g][i] = s
Grouped(S, s) == \E g \in DOMAIN S.mem : \E i \in 1..Len(S.mem[g]) : S.mem[g][i] = s
R(S, v) == TLCEval([S |-> S, v |-> v])
\* the source by itself
RECURSIVE GetSrc(_, _, _, _), DepsSrc(_, _, _, _, _)
DepsSrc(P, S, s, deps, i) ==
  IF i > Len(deps) THEN R(S, 1)
  ELSE LET r == TLCEval(GetSrc(P, S, s, deps[i][2])) IN IF r.v = 0 THEN r ELSE DepsSrc(P, r.S, s, deps, i + 1)
GetSrc(P, S, s, p) ==
  IF S.own[s][p] # 0 THEN R(S, S.own[s][p])
  ELSE IF P[p].kind # "src" THEN R(S, 0)
  ELSE LET r == TLCEval(DepsSrc(P, S, s, P[p].deps, 1)) IN
       IF r.v = 0 THEN r ELSE LET k == r.S.n + 1 IN R([r.S EXCEPT !.own[s][p] = k, !.n = k], k)
\* a member of a group, and the group
RECURSIVE GetEnt(_, _, _, _), GetGrp(_, _, _, _), DepsGrp(_, _, _, _, _, _), RunGrp(_, _, _, _), SetEach(_, _, _, _)
\* dependency i for member j
DepsGrp(P, S, g, deps, i, j) ==
  IF i > Len(deps) THEN R(S, 1)
  ELSE IF deps[i][1] = "g"
       THEN LET r == TLCEval(GetGrp(P, S, g, deps[i][2])) IN IF r.v = 0 THEN r ELSE DepsGrp(P, r.S, g, deps, i + 1, 1)
       ELSE IF j > Len(S.mem[g]) THEN DepsGrp(P, S, g, deps, i + 1, 1)
       ELSE LET r == TLCEval(GetEnt(P, S, S.mem[g][j], deps[i][2])) IN IF r.v = 0 THEN r ELSE DepsGrp(P, r.S, g, deps, i, j + 1)
SetEach(S, g, p, j) == IF j > Len(S.mem[g]) THEN S
                       ELSE SetEach(TLCEval([S EXCEPT !.ent[S.mem[g][j]][p] = S.n + 1, !.n = S.n + 1]), g, p, j + 1)
RunGrp(P, S, g, p) ==
  LET r == TLCEval(DepsGrp(P, S, g, P[p].deps, 1, 1)) IN
  IF r.v = 0 THEN r
  ELSE LET S1 == TLCEval(IF P[p].kind = "each" THEN r.S ELSE [r.S EXCEPT !.grp[g][p] = r.S.n + 1, !.n = r.S.n + 1])
       IN R(IF P[p].kind = "grp" THEN S1 ELSE SetEach(S1, g, p, 1), 1)
GetEnt(P, S, s, p) ==
  LET g == GroupOf(S, s) IN
  IF S.ent[s][p] # 0 THEN R(S, S.ent[s][p])
  ELSE IF S.grp[g][p] # 0 THEN R(S, S.grp[g][p])
  ELSE LET r == TLCEval(GetSrc(P, S, s, p)) IN
       IF r.v # 0 \/ P[p].kind \notin GroupKinds THEN r
       ELSE LET q == TLCEval(RunGrp(P, r.S, g, p)) IN
            IF q.v = 0 THEN q ELSE R(q.S, IF q.S.ent[s][p] # 0 THEN q.S.ent[s][p] ELSE q.S.grp[g][p])
GetGrp(P, S, g, p) ==
  IF S.grp[g][p] # 0 THEN R(S, S.grp[g][p])
  ELSE IF P[p].kind \notin GroupKinds THEN R(S, 0)
  ELSE LET q == TLCEval(RunGrp(P, S, g, p)) IN IF q.v = 0 THEN q ELSE R(q.S, q.S.grp[g][p])
Get(P, S, s, p) == IF Grouped(S, s) THEN GetEnt(P, S, s, p) ELSE GetSrc(P, S, s, p)
\* setting by hand
Set(S, s, p) == LET k == S.n + 1 IN
  IF Grouped(S, s) THEN [S EXCEPT !.ent[s][p] = k, !.n = k] ELSE [S EXCEPT !.own[s][p] = k, !.n = k]
SetG(S, g, p) == [S EXCEPT !.grp[g][p] = S.n + 1, !.n = S.n + 1]
\* any change of the members forgets everything that belonged to the group
Zero(S) == [p \in DOMAIN S.own[CHOOSE s \in DOMAIN S.own : TRUE] |-> 0]
Members(S, g) == {S.mem[g][i] : i \in 1..Len(S.mem[g])}
Forget(S, gs) == [S EXCEPT !.grp = [g \in DOMAIN S.grp |-> IF g \in gs THEN Zero(S) ELSE S.grp[g]],
                           !.ent = [s \in DOMAIN S.ent |-> IF \E g \in gs : s \in Members(S, g) THEN Zero(S) ELSE S.ent[s]]]
Add(S, s, g) == Forget([S EXCEPT !.mem[g] = Append(S.mem[g], s)], {g})
RemoveFrom(q, s) == SelectSeq(q, LAMBDA x : x # s)
Remove(S, s, g) == LET T == Forget(S, {g}) IN [T EXCEPT !.mem[g] = RemoveFrom(S.mem[g], s), !.own[s] = Zero(S)]
Merge(S, g, h) == LET T == Forget(S, {g, h}) IN [T EXCEPT !.mem[g] = S.mem[g] \o S.mem[h], !.mem[h] = <<>>]
New(np, ns, ng) == [own |-> [s \in 1..ns |-> [p \in 1..np |-> 0]], ent |-> [s \in 1..ns |-> [p \in 1..np |-> 0]],
                    grp |-> [g \in 1..ng |-> [p \in 1..np |-> 0]], mem |-> [g \in 1..ng |-> <<>>], n |-> 0]
=============================================================================
