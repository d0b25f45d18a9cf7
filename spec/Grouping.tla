------------------------------ MODULE Grouping ------------------------------
(* The design of the two families of grouping: scanning a list of stored      *)
(* groups in order (overlap, none), and merging the groups found around the   *)
(* new source in the order of their identifiers, releasing what does not fit  *)
(* (moffat; split and assoc are the case of a single related group). Checked   *)
(* against GroupAbs for every relation over N sources and every limit.        *)
EXTENDS GroupAbs, TLC
CONSTANTS N, Limits, Spill
VARIABLES edges, limit, groups, next, emitted, last
vars == <<edges, limit, groups, next, emitted, last>>
Pairs == {p \in SUBSET (1..N) : Cardinality(p) = 2}
Related(x, G) == \E y \in G : {x, y} \in edges

Init == /\ edges \in SUBSET Pairs /\ limit \in Limits /\ groups = <<>> /\ next = 1 /\ emitted = <<>> /\ last = <<{}, 0, {}>>

\* groups is a sequence of sets, scanned in order. st = [m: index of the matched group or 0, g: groups, dead: removed]
RECURSIVE Scan(_, _, _, _, _)
Scan(x, gs, i, m, dead) ==
  IF i > Len(gs) THEN <<gs, m, dead>>
  ELSE LET cur == IF m = 0 THEN 1 ELSE Cardinality(gs[m])
       IN IF limit > 0 /\ cur >= limit THEN <<gs, m, dead>>
          ELSE IF limit > 0 /\ cur + Cardinality(gs[i]) > limit THEN Scan(x, gs, i + 1, m, dead)
          ELSE IF ~Related(x, gs[i]) THEN Scan(x, gs, i + 1, m, dead)
          ELSE IF m = 0 THEN Scan(x, [gs EXCEPT ![i] = @ \cup {x}], i + 1, i, dead)
          ELSE Scan(x, [gs EXCEPT ![m] = @ \cup gs[i], ![i] = {}], i + 1, m, dead \cup {i})
Compact(gs, dead) == SelectSeq(gs, LAMBDA g : g # {})

\* the range-search family: groups in the order of their identifiers (the order of the sequence)
RECURSIVE Absorb(_, _, _, _, _)
Absorb(x, gs, i, mine, out) ==
  IF i > Len(gs) THEN <<mine, gs, out>>
  ELSE IF ~Related(x, gs[i]) THEN Absorb(x, gs, i + 1, mine, out)
  ELSE IF limit > 0 /\ Cardinality(gs[i]) + Cardinality(mine) > limit THEN Absorb(x, [gs EXCEPT ![i] = {}], i + 1, mine, out \cup {gs[i]})
  ELSE Absorb(x, [gs EXCEPT ![i] = {}], i + 1, mine \cup gs[i], out)

SetOf(s) == {s[i] : i \in 1..Len(s)}
ReceiveNext ==
  /\ next <= N /\ next' = next + 1
  /\ IF Spill
     THEN LET r == Absorb(next, groups, 1, {next}, {})
          IN groups' = Append(Compact(r[2], {}), r[1]) /\ emitted' = emitted \o <<r[3]>>
     ELSE LET r == Scan(next, groups, 1, 0, {})
          IN /\ groups' = IF r[2] = 0 THEN Append(Compact(r[1], r[3]), {next}) ELSE Compact(r[1], r[3])
             /\ emitted' = emitted \o <<{}>>
  /\ last' = <<SetOf(groups), next, {}>>
  /\ UNCHANGED <<edges, limit>>
Process == /\ \E Sel \in SUBSET UNION SetOf(groups) :
                /\ Sel # {}
                /\ groups' = SelectSeq(groups, LAMBDA g : g \cap Sel = {})
                /\ emitted' = Append(emitted, {g \in SetOf(groups) : g \cap Sel # {}})
                /\ last' = <<SetOf(groups), 0, Sel>>
           /\ UNCHANGED <<edges, limit, next>>
Next == ReceiveNext \/ Process
Spec == Init /\ [][Next]_vars

\* refinement, step by step
LastEmitted == emitted[Len(emitted)]
Conforms ==
  emitted = <<>> \/
  IF last[2] # 0
  THEN <<SetOf(groups), LastEmitted>> \in Receive(last[1], last[2], {y \in UNION last[1] : {last[2], y} \in edges}, limit, Spill)
  ELSE <<SetOf(groups), LastEmitted>> = Select(last[1], last[3])
Emitted == UNION SetOf(emitted)
ExactlyOnce == /\ \A x \in 1..N : Cardinality({g \in Emitted \cup SetOf(groups) : x \in g}) = (IF x < next THEN 1 ELSE 0)
               /\ Len(groups) = Cardinality(SetOf(groups))
WithinLimit == limit > 0 => \A g \in Emitted \cup SetOf(groups) : Cardinality(g) <= limit
\* without a limit the stored groups are the connected components of what is stored
RECURSIVE Reach(_, _)
Reach(S, U) == LET T == S \cup {y \in U : \E x \in S : {x, y} \in edges} IN IF T = S THEN S ELSE Reach(T, U)
Closure == limit = 0 => \A g \in SetOf(groups) : \A x \in g : (Emitted = {} => Reach({x}, UNION SetOf(groups)) = g)
=============================================================================
