---------------------------- MODULE PropsModel ----------------------------
(* All short histories of a small family of properties: what Props.tla computes has the properties promised. *)
EXTENDS Props
CONSTANTS NS, NG, Depth
\* 1 is only ever set by hand, 2 read from it, 3 of the group from the members' 2, 4 on every member from the group's 3
P == <<[kind |-> "none", deps |-> <<>>], [kind |-> "src", deps |-> <<<<"m", 1>>>>],
       [kind |-> "grp", deps |-> <<<<"m", 2>>>>], [kind |-> "each", deps |-> <<<<"g", 3>>>>]>>
VARIABLES S, made, byhand, gone, len, last
vars == <<S, made, byhand, gone, len, last>>
\* made[v]: the members of the group when value v was made for it
Init == S = New(4, NS, NG) /\ made = <<>> /\ byhand = {} /\ gone = {} /\ len = 0 /\ last = <<"init">>
Note(T, g) == made' = made \o [i \in 1..(T.n - S.n) |-> Members(T, g)]
Live == (1..NS) \ gone
Free == {s \in Live : ~Grouped(S, s)}
Step == \/ \E s \in Live, p \in 1..4 : LET r == Get(P, S, s, p) IN
             /\ S' = r.S /\ last' = <<"get", s, p, r.v>> /\ UNCHANGED <<byhand, gone>>
             /\ IF Grouped(S, s) THEN Note(r.S, GroupOf(S, s)) ELSE made' = made \o [i \in 1..(r.S.n - S.n) |-> {}]
        \/ \E g \in 1..NG, p \in 3..4 : LET r == GetGrp(P, S, g, p) IN S' = r.S /\ last' = <<"getg", g, p, r.v>> /\ Note(r.S, g) /\ UNCHANGED <<byhand, gone>>
        \/ \E s \in Live, p \in {1, 3} : S' = Set(S, s, p) /\ last' = <<"set", s, p>> /\ byhand' = byhand \cup {S.n + 1} /\ made' = Append(made, {}) /\ gone' = gone
        \/ \E s \in Free, g \in 1..NG : S' = Add(S, s, g) /\ last' = <<"add", s, g>> /\ UNCHANGED <<made, byhand, gone>>
        \/ \E g \in 1..NG : \E s \in Members(S, g) : S' = Remove(S, s, g) /\ gone' = gone \cup {s} /\ last' = <<"remove", s, g>> /\ UNCHANGED <<made, byhand>>
        \/ \E g, h \in 1..NG : g # h /\ S' = Merge(S, g, h) /\ last' = <<"merge", g, h>> /\ UNCHANGED <<made, byhand, gone>>
Next == len < Depth /\ Step /\ len' = len + 1
Spec == Init /\ [][Next]_vars
\* C10: nothing of the group is older than its membership
Fresh == /\ \A g \in 1..NG, p \in 1..4 : LET v == S.grp[g][p] IN v # 0 /\ v \notin byhand => made[v] = Members(S, g)
         /\ \A s \in 1..NS, p \in 3..4 : LET v == S.ent[s][p] IN v # 0 /\ v \notin byhand => Grouped(S, s) /\ made[v] = Members(S, GroupOf(S, s))
\* the source's own properties survive
Survive == [][\A s \in 1..NS, p \in 1..4 : S.own[s][p] # 0 /\ s \notin gone' => S'.own[s][p] = S.own[s][p] \/ last' = <<"set", s, p>>]_vars
\* C09: asking again changes nothing and gives the same
Once == last[1] = "get" /\ last[4] # 0 => LET r == Get(P, S, last[2], last[3]) IN r.v = last[4] /\ r.S = S
\* what nobody can compute is not there
Missing == \A s \in Live \cap Free : S.own[s][1] = 0 => Get(P, S, s, 2).v = 0
LastSet == last[1] = "set" => Get(P, S, last[2], last[3]).v = S.n
=============================================================================
