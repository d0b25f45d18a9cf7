----------------------------- MODULE FitsHandle -----------------------------
(* Image sources of one FITS file share its open handles. A handle has a current HDU, which every operation moves and
   leaves where it was used last; handles are pooled, closed and reopened behind the sources' backs. Whatever the other
   sources did, a source is bound to the HDU it was asked for and every operation works on that one.
   Switch: operations move the handle to the HDU of the source first.  Fresh: "the first image" is determined by the file
   and not by where a pooled handle stands (as it was: FALSE). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Hdus, FirstImage, Images, Srcs, Switch, Fresh, MaxHandles, MaxOps
VARIABLES pool, asked, bound, last, ops
\* pool: bag of positions of the idle handles; last: [s, at] HDU which the last operation of a source worked on
vars == <<pool, asked, bound, last, ops>>
Init == pool = <<>> /\ asked = [s \in Srcs |-> -1] /\ bound = [s \in Srcs |-> -1] /\ last = [s |-> 0, at |-> 0] /\ ops = 0
Without(i) == [k \in 1..Len(pool) - 1 |-> IF k < i THEN pool[k] ELSE pool[k + 1]]
\* an idle handle, or a new one: handles are opened at the first image
Handles == {[at |-> pool[i], rest |-> Without(i)] : i \in 1..Len(pool)}
           \cup (IF Len(pool) < MaxHandles THEN {[at |-> FirstImage, rest |-> pool]} ELSE {})
Op == ops < MaxOps /\ ops' = ops + 1
Open(s, h) == /\ Op /\ asked[s] = -1
              /\ \E d \in Handles :
                   LET at == IF h = 0 THEN (IF Fresh THEN FirstImage ELSE d.at) ELSE h IN
                     /\ at \in Images
                     /\ asked' = [asked EXCEPT ![s] = h] /\ bound' = [bound EXCEPT ![s] = at]
                     /\ pool' = Append(d.rest, IF h = 0 THEN d.at ELSE h)
              /\ UNCHANGED last
Use(s) == /\ Op /\ asked[s] # -1
          /\ \E d \in Handles : LET at == IF Switch THEN bound[s] ELSE d.at IN
               last' = [s |-> s, at |-> at] /\ pool' = Append(d.rest, at)
          /\ UNCHANGED <<asked, bound>>
\* writing closes the other handles; the pool may drop any handle at any time
Write(s) == /\ Op /\ asked[s] # -1
            /\ \E d \in Handles : LET at == IF Switch THEN bound[s] ELSE d.at IN last' = [s |-> s, at |-> at] /\ pool' = <<at>>
            /\ UNCHANGED <<asked, bound>>
Drop == pool # <<>> /\ \E i \in 1..Len(pool) : pool' = Without(i) /\ UNCHANGED <<asked, bound, last, ops>>
Close(s) == asked[s] # -1 /\ asked' = [asked EXCEPT ![s] = -1] /\ bound' = [bound EXCEPT ![s] = -1] /\ last' = [s |-> 0, at |-> 0] /\ UNCHANGED <<pool, ops>>
Next == (\E s \in Srcs : (\E h \in Hdus \cup {0} : Open(s, h)) \/ Use(s) \/ Write(s) \/ Close(s)) \/ Drop
Spec == Init /\ [][Next]_vars
Bound == \A s \in Srcs : asked[s] = -1 \/ bound[s] = IF asked[s] = 0 THEN FirstImage ELSE asked[s]
Place == last.s = 0 \/ last.at = IF asked[last.s] = 0 THEN FirstImage ELSE asked[last.s]
=============================================================================
