---------------------------- MODULE MeasureAbs ----------------------------
(* The measurement stage as its neighbours see it: groups of sources go in  *)
(* and every one comes out once with every member measured once; sources    *)
(* are numbered 1, 2, 3 ... in the order of arrival while they are handed   *)
(* over; stopping or synchronizing only returns when nothing is inside, and *)
(* reports a failed measurement instead of losing the group silently.       *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES put,     \* sequence of groups (sets of sources) handed over
          open,    \* TRUE while the hand-over of the last group is running
          ids,     \* function: source |-> number
          rows,    \* sources measured
          seen,    \* groups (indices) shown to the observers
          out,     \* groups (indices) delivered
          failed   \* a measurement failed

mvars == <<put, open, ids, rows, seen, out, failed>>
All(s) == UNION {s[i] : i \in 1..Len(s)}

MInit == /\ put = <<>> /\ open = FALSE /\ ids = [x \in {} |-> 0] /\ rows = {} /\ seen = {} /\ out = {} /\ failed = FALSE
MPut(g) == /\ ~open /\ g # {} /\ g \cap All(put) = {}
           /\ put' = Append(put, g) /\ open' = TRUE
           /\ UNCHANGED <<ids, rows, seen, out, failed>>
MId(x, n) == /\ open /\ x \in put[Len(put)] \ DOMAIN ids
             /\ n = Cardinality(DOMAIN ids) + 1
             /\ ids' = [y \in DOMAIN ids \cup {x} |-> IF y = x THEN n ELSE ids[y]]
             /\ UNCHANGED <<put, open, rows, seen, out, failed>>
MPutRet == /\ open /\ put[Len(put)] \subseteq DOMAIN ids /\ open' = FALSE
           /\ UNCHANGED <<put, ids, rows, seen, out, failed>>
MRow(x, n) == /\ x \in DOMAIN ids \ rows /\ ids[x] = n
              /\ rows' = rows \cup {x}
              /\ UNCHANGED <<put, open, ids, seen, out, failed>>
MFail(x) == /\ x \in DOMAIN ids \ rows /\ failed' = TRUE
            /\ UNCHANGED <<put, open, ids, rows, seen, out>>
MSeen(g) == /\ \E i \in 1..Len(put) : /\ put[i] = g /\ i \notin seen \cup out /\ g \subseteq rows
                                      /\ seen' = seen \cup {i}
            /\ UNCHANGED <<put, open, ids, rows, out, failed>>
MDeliver(g) == /\ \E i \in 1..Len(put) : /\ put[i] = g /\ i \notin out /\ g \subseteq rows
                                         /\ out' = out \cup {i}
               /\ UNCHANGED <<put, open, ids, rows, seen, failed>>
\* stop or synchronize returns normally
MDrained == /\ ~open /\ ~failed /\ out = 1..Len(put) /\ UNCHANGED mvars
\* ... or with an error
MReported == failed /\ UNCHANGED mvars
=============================================================================
