------------------------------ MODULE Program ------------------------------
(* The whole pipeline: the main thread takes the detection frames one after  *)
(* the other, publishes the detections of each followed by a request to let  *)
(* the waiting ones go, waits for the stages with threads of their own, and   *)
(* closes the part of the catalogue. The prefetching restores the order, the   *)
(* grouping holds sources until the request, the measurement finishes groups   *)
(* in any order, the sorter restores it, rows are written when enough wait.     *)
(* The catalogue must be the same whatever the schedule.                         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Frames,       \* detections of each frame, e.g. <<2, 0, 3>>
          Pairs,        \* the grouping joins neighbours two by two
          FlushSize,    \* rows that are written together (0: only at the end of a part)
          Sorted, SyncPrefetch, SyncMeasure, FlushPart
VARIABLES pc, f, n,     \* the main thread: what it does, with which frame, how many of its detections are published
          pq, ready,    \* the prefetching: what was received, in order; what is ready to leave
          hold,         \* the grouping: sources waiting
          measuring,    \* groups handed to the measurement: sets of sources with the number of the group
          numbers,      \* source |-> its number in the catalogue
          sort, next,   \* the sorter: groups waiting, the next number to leave
          buf, parts    \* rows waiting to be written, rows of each part
vars == <<pc, f, n, pq, ready, hold, measuring, numbers, sort, next, buf, parts>>
F302 == <<3, 0, 2>>
F212 == <<2, 1, 2>>
F765 == <<7, 0, 6, 5>>
Src(k, i) == <<k, i>>
REQUEST == <<0, 0>>
Of(k) == {Src(k, i) : i \in 1..Frames[k]}
All == UNION {Of(k) : k \in 1..Len(Frames)}
Init == /\ pc = "publish" /\ f = 1 /\ n = 0 /\ pq = <<>> /\ ready = {} /\ hold = <<>> /\ measuring = {} /\ numbers = [s \in {} |-> 0]
        /\ sort = {} /\ next = 1 /\ buf = <<>> /\ parts = <<>>
\* ---- main thread
Publish == /\ pc = "publish" /\ n < Frames[f] /\ n' = n + 1 /\ pq' = Append(pq, Src(f, n + 1))
           /\ UNCHANGED <<pc, f, ready, hold, measuring, numbers, sort, next, buf, parts>>
Request == /\ pc = "publish" /\ n = Frames[f] /\ pq' = Append(pq, REQUEST) /\ pc' = "prefetch"
           /\ UNCHANGED <<f, n, ready, hold, measuring, numbers, sort, next, buf, parts>>
WaitPrefetch == /\ pc = "prefetch" /\ (SyncPrefetch => pq = <<>>) /\ pc' = "measure"
                /\ UNCHANGED <<f, n, pq, ready, hold, measuring, numbers, sort, next, buf, parts>>
WaitMeasure == /\ pc = "measure" /\ (SyncMeasure => measuring = {}) /\ pc' = "flush"
               /\ UNCHANGED <<f, n, pq, ready, hold, measuring, numbers, sort, next, buf, parts>>
ClosePart == /\ pc = "flush"
             /\ parts' = Append(IF FlushPart THEN [parts EXCEPT ![Len(parts)] = @ \o buf] ELSE parts, <<>>)
             /\ buf' = IF FlushPart THEN <<>> ELSE buf
             /\ pc' = IF f = Len(Frames) THEN "end" ELSE "publish"
             /\ f' = IF f = Len(Frames) THEN f ELSE f + 1
             /\ n' = 0 /\ UNCHANGED <<pq, ready, hold, measuring, numbers, sort, next>>
OpenFirst == /\ parts = <<>> /\ parts' = <<<<>>>> /\ UNCHANGED <<pc, f, n, pq, ready, hold, measuring, numbers, sort, next, buf>>
\* ---- prefetching: any source can become ready, the first in the queue leaves
Prefetched == \E i \in 1..Len(pq) : /\ pq[i] # REQUEST /\ pq[i] \notin ready /\ ready' = ready \cup {pq[i]}
                                    /\ UNCHANGED <<pc, f, n, pq, hold, measuring, numbers, sort, next, buf, parts>>
LeaveSource == /\ pq # <<>> /\ Head(pq) \in ready /\ pq' = Tail(pq) /\ ready' = ready \ {Head(pq)} /\ hold' = Append(hold, Head(pq))
               /\ UNCHANGED <<pc, f, n, measuring, numbers, sort, next, buf, parts>>
\* ---- grouping on request: all that wait, in groups, numbered in order
RECURSIVE Groups(_)
Groups(h) == IF h = <<>> THEN <<>> ELSE IF Len(h) = 1 \/ ~Pairs THEN <<<<h[1]>>>> \o Groups(Tail(h)) ELSE <<<<h[1], h[2]>>>> \o Groups(SubSeq(h, 3, Len(h)))
First(h, k) == Cardinality(DOMAIN numbers) + (CHOOSE p \in 1..Len(h) : h[p] = k)
LeaveRequest == /\ pq # <<>> /\ Head(pq) = REQUEST /\ pq' = Tail(pq) /\ hold' = <<>>
                /\ measuring' = measuring \cup {Groups(hold)[i] : i \in 1..Len(Groups(hold))}
                /\ numbers' = [s \in DOMAIN numbers \cup {hold[i] : i \in 1..Len(hold)} |-> IF s \in DOMAIN numbers THEN numbers[s] ELSE First(hold, s)]
                /\ UNCHANGED <<pc, f, n, ready, sort, next, buf, parts>>
\* ---- measurement: any group finishes; the rows go to the sorter, whose turn it is leaves
RECURSIVE Drain(_, _, _)
Drain(waiting, nx, out) == LET g == {w \in waiting : numbers[w[1]] = nx} IN
  IF g = {} THEN [w |-> waiting, n |-> nx, o |-> out] ELSE LET x == CHOOSE w \in g : TRUE IN Drain(waiting \ {x}, nx + Len(x), out \o x)
Room == Len(buf) = 0 \/ FlushSize = 0 \/ Len(buf) < FlushSize
Finished == \E g \in measuring : LET d == IF Sorted THEN Drain(sort \cup {g}, next, <<>>) ELSE [w |-> {}, n |-> next, o |-> g] IN
              /\ Room /\ parts # <<>>
              /\ measuring' = measuring \ {g} /\ sort' = d.w /\ next' = d.n /\ buf' = buf \o d.o
              /\ UNCHANGED <<pc, f, n, pq, ready, hold, numbers, parts>>
WriteSome == /\ ~Room /\ parts' = [parts EXCEPT ![Len(parts)] = @ \o buf] /\ buf' = <<>>
             /\ UNCHANGED <<pc, f, n, pq, ready, hold, measuring, numbers, sort, next>>
Workers == Prefetched \/ LeaveSource \/ LeaveRequest \/ Finished \/ WriteSome
Main == /\ parts # <<>> /\ (Publish \/ Request \/ WaitPrefetch \/ WaitMeasure \/ ClosePart)
Done == pc = "end" /\ ~ENABLED Workers /\ UNCHANGED vars
Next == OpenFirst \/ Main \/ Workers \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Workers) /\ WF_vars(OpenFirst)
\* ---- what users rely on
Rows(p) == {p[i] : i \in 1..Len(p)}
\* a closed part holds the rows of its frame, each once, in the order of detection when they are sorted
Right(k) == /\ Rows(parts[k]) = Of(k) /\ Len(parts[k]) = Cardinality(Of(k))
            /\ Sorted => \A i \in 1..Len(parts[k]) : parts[k][i] = Src(k, i)
Parts == \A k \in 1..(Len(parts) - 1) : Right(k)
\* members of a group stay together
Together == \A k \in 1..(Len(parts) - 1) : Pairs => \A i \in 1..Len(parts[k]) : parts[k][i][2] % 2 = 0 => i > 1 /\ parts[k][i - 1] = Src(k, parts[k][i][2] - 1)
\* the numbers are those of the detections, whatever the schedule
Numbers == \A s \in DOMAIN numbers : numbers[s] = s[2] + Cardinality(UNION {Of(k) : k \in {j \in 1..Len(Frames) : j < s[1]}})
Complete == pc = "end" => Len(parts) = Len(Frames) + 1 /\ buf = <<>> /\ measuring = {} /\ sort = {} /\ pq = <<>>
Ends == <>(pc = "end")
=============================================================================
