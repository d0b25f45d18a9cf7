------------------------------ MODULE FitModel ------------------------------
(* Fitting the sources of a group in turn (the iterative fit) and saying how it went.                               *)
(* Amplitudes are integers; source i has data D[i] (its own light and some of that of the neighbours: overlap V) and *)
(* is seen by some frames only.  A source that no frame sees is OUTSIDE, one with fewer good pixels than parameters  *)
(* has INSUFFICIENT data; neither is fitted, and the others are fitted to what is left when their start is taken off.*)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Sources, Frames, Rounds, KeepFlags, Renew
VARIABLES sees, good, truth, amp, flag, value, round, turn, pc
vars == <<sees, good, truth, amp, flag, value, round, turn, pc>>
Start == 2
None == -99
N == Cardinality(Sources)
\* what the neighbours put on source i (in halves of their light)
Blend(a, i) == LET f[S \in SUBSET Sources] == IF S = {} THEN 0 ELSE LET j == CHOOSE x \in S : TRUE IN a[j] + f[S \ {j}] IN f[Sources \ {i}]
Data(i) == 2 * truth[i] + Blend(truth, i)
Init ==
  /\ sees \in [Sources -> SUBSET Frames]
  /\ good \in [Sources -> {0, 3}]
  /\ truth \in [Sources -> {0, 4}]
  /\ amp = [i \in Sources |-> 2 * Start]
  /\ flag = [i \in Sources |-> "none"]
  /\ value = [i \in Sources |-> None]
  /\ round = 1 /\ turn = 1 /\ pc = "fit"
Status(i) == IF sees[i] = {} THEN "OUTSIDE" ELSE IF good[i] = 0 THEN "INSUFFICIENT" ELSE "none"
\* amplitudes in halves, to keep them whole for a while
Fit ==
  /\ pc = "fit"
  /\ LET i == turn IN
     IF Status(i) # "none" THEN /\ flag' = IF KeepFlags THEN [flag EXCEPT ![i] = Status(i)] ELSE flag
                                /\ UNCHANGED <<amp, value>>
     ELSE LET a == (2 * Data(i) - Blend(amp, i)) \div 2 IN
          /\ amp' = [amp EXCEPT ![i] = IF Renew \/ round = 1 THEN a ELSE @]
          /\ value' = [value EXCEPT ![i] = IF Renew \/ round = 1 THEN a ELSE @]
          /\ UNCHANGED flag
  /\ IF turn < N THEN turn' = turn + 1 /\ UNCHANGED <<round, pc>>
     ELSE /\ turn' = 1 /\ round' = round + 1
          /\ pc' = IF round = Rounds THEN "done" ELSE "fit"
  /\ UNCHANGED <<sees, good, truth>>
Next == Fit \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Fit)
Done == <>(pc = "done")
\* a source has a value or a flag that says why not
Told == pc = "done" => \A i \in Sources : (value[i] = None) = (flag[i] # "none") /\ (flag[i] # "none" => flag[i] = Status(i))
\* when all are fitted the values go to the truth: every round halves (at least) what is wrong
Err(i) == LET d == amp[i] - 2 * truth[i] IN IF d < 0 THEN -d ELSE d
Better == (pc = "done" /\ \A i \in Sources : Status(i) = "none") => \A i \in Sources : Err(i) <= 1
=============================================================================
