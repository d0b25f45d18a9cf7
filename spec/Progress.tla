------------------------------ MODULE Progress ------------------------------
(* Threads report to counters; each report adds to its counter and then shows  *)
(* all the counters, one at a time.  What a change of these steps would do:    *)
(* ShowFirst: show, then add; ReadOutside: read the counters before waiting    *)
(* for one's turn to show them; Split: adding is reading, then writing.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Reports, ShowFirst, ReadOutside, Split
Stages == 1..2
VARIABLES count, pc, left, read, turn, shown, stage
vars == <<count, pc, left, read, turn, shown, stage>>
\* a thread reports its own stage
Init == /\ count = [s \in Stages |-> 0] /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> Reports]
        /\ read = [t \in Threads |-> count] /\ turn = 0 /\ shown = <<[s \in Stages |-> 0]>> /\ stage \in [Threads -> Stages]
After(t) == IF ShowFirst THEN (IF pc[t] \in {"add", "write"} THEN "idle" ELSE "add") ELSE (IF pc[t] \in {"add", "write"} THEN "wait" ELSE "idle")
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Start(t) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, IF ShowFirst THEN "wait" ELSE "add") /\ UNCHANGED <<count, read, turn, shown, stage>>
Add(t) == /\ pc[t] = "add"
          /\ IF Split THEN read' = [read EXCEPT ![t] = count] /\ Go(t, "write") /\ UNCHANGED count
             ELSE count' = [count EXCEPT ![stage[t]] = @ + 1] /\ Go(t, After(t)) /\ UNCHANGED read
          /\ UNCHANGED <<left, turn, shown, stage>>
Store(t) == pc[t] = "write" /\ count' = [count EXCEPT ![stage[t]] = read[t][stage[t]] + 1] /\ Go(t, After(t)) /\ UNCHANGED <<left, read, turn, shown, stage>>
Look(t) == /\ pc[t] = "wait" /\ ReadOutside /\ read' = [read EXCEPT ![t] = count] /\ Go(t, "have") /\ UNCHANGED <<count, left, turn, shown, stage>>
Enter(t) == /\ turn = 0 /\ turn' = t
            /\ IF ReadOutside THEN pc[t] = "have" /\ UNCHANGED read ELSE pc[t] = "wait" /\ read' = [read EXCEPT ![t] = count]
            /\ Go(t, "show") /\ UNCHANGED <<count, left, shown, stage>>
Show(t) == pc[t] = "show" /\ turn = t /\ turn' = 0 /\ shown' = Append(shown, read[t]) /\ Go(t, IF ShowFirst THEN "add" ELSE "idle") /\ UNCHANGED <<count, left, read, stage>>
Quiet == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Start(t) \/ Add(t) \/ Store(t) \/ Look(t) \/ Enter(t) \/ Show(t)) \/ (Quiet /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Total(s) == Reports * Cardinality({t \in Threads : stage[t] = s})
FinalShown == Quiet => shown[Len(shown)] = [s \in Stages |-> Total(s)]
NeverBack == \A i \in 2..Len(shown) : \A s \in Stages : shown[i - 1][s] <= shown[i][s]
NoneInvented == \A s \in Stages : count[s] <= Total(s)
=============================================================================
