--------------------------- MODULE MultiThreshold ---------------------------
(* The algorithm of MultiThresholdPartitionStep: levels are taken in order,   *)
(* a list of active branches and a stack of junctions are kept, junctions are *)
(* then looked at last one first. It finds exactly the parts of Partition.    *)
EXTENDS Partition
CONSTANTS W, H, Values, MinA, CP, CQ
Thr == <<8, 16, 32>>
VARIABLES val, pc, lev, nodes, active, junctions, split, result
\* nodes: sequence of [px, thr, par]; the rest are indices into it
vars == <<val, pc, lev, nodes, active, junctions, split, result>>
S == (0..W-1) \X (0..H-1)
Init == /\ val \in [S -> Values] /\ \E p \in S : val[p] = 64 /\ \E q \in S : val[q] = 5
        /\ pc = "build" /\ lev = 1 /\ nodes = <<[px |-> S, thr |-> 0, par |-> 0]>> /\ active = {1} /\ junctions = <<>> /\ split = {} /\ result = {}
Groups == {g \in Comps({p \in S : val[p] > Thr[lev]}) : Cardinality(g) >= MinA}
Inside(k) == {g \in Groups : g \cap nodes[k].px # {}}
RECURSIVE AddKids(_, _, _)
AddKids(ns, gs, par) == IF gs = {} THEN ns ELSE LET g == CHOOSE g \in gs : TRUE IN AddKids(Append(ns, [px |-> g, thr |-> Thr[lev], par |-> par]), gs \ {g}, par)
RECURSIVE Level(_, _)
\* one level, over the nodes that were active when it began
Level(todo, st) == IF todo = {} THEN st
  ELSE LET k == CHOOSE k \in todo : TRUE
           gs == Inside(k)
           c == Cardinality(gs)
           ns == IF c > 1 THEN AddKids(st.nodes, gs, k) ELSE st.nodes
       IN Level(todo \ {k}, [nodes |-> ns,
                             active |-> (IF c = 1 THEN st.active ELSE st.active \ {k}) \cup (IF c > 1 THEN (Len(st.nodes) + 1)..Len(ns) ELSE {}),
                             junctions |-> IF c > 1 THEN Append(st.junctions, k) ELSE st.junctions])
Build == /\ pc = "build"
         /\ IF lev > Len(Thr) THEN pc' = "find" /\ UNCHANGED <<lev, nodes, active, junctions>>
            ELSE LET st == Level(active, [nodes |-> nodes, active |-> active, junctions |-> junctions])
                 IN nodes' = st.nodes /\ active' = st.active /\ junctions' = st.junctions /\ lev' = lev + 1 /\ pc' = pc
         /\ UNCHANGED <<val, split, result>>
Kids(k) == {j \in 1..Len(nodes) : nodes[j].par = k}
Big(k) == {j \in Kids(k) : CQ * Flux(nodes[j], val) > CP * SumOver(val, S)}
RECURSIVE Up(_)
Up(k) == IF k = 0 THEN {} ELSE {k} \cup Up(nodes[k].par)
Find == /\ pc = "find"
        /\ IF junctions = <<>> THEN pc' = "done" /\ UNCHANGED <<junctions, split, result>>
           ELSE LET k == junctions[Len(junctions)] IN
                /\ junctions' = SubSeq(junctions, 1, Len(junctions) - 1) /\ pc' = pc
                /\ IF Cardinality(Big(k)) >= 2
                   THEN split' = split \cup Up(k) /\ result' = result \cup {nodes[j].px : j \in {j \in Big(k) : j \notin split}}
                   ELSE UNCHANGED <<split, result>>
        /\ UNCHANGED <<val, lev, nodes, active>>
Next == Build \/ Find
Spec == Init /\ [][Next]_vars
Disjoint == \A a, b \in result : a # b => a \cap b = {}
Found == pc = "done" => /\ result = MultiParts(S, val, Thr, MinA, CP, CQ)
                        /\ Cardinality(result) # 1
                        /\ \A a \in result : Cardinality(a) >= MinA /\ Connected(a)
=============================================================================
