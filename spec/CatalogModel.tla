---------------------------- MODULE CatalogModel ----------------------------
(* Buffered rows, written when there are enough of them or on request, in a    *)
(* file of parts: the first rows to be written replace the file.               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Parts, ReplaceWhenFirstPart
VARIABLES F, next, frame, part, rows, file, total, given, made
vars == <<F, next, frame, part, rows, file, total, given, made>>
\* file: the parts (their number and rows), <<>> before anything is written, made: by us; given[k]: the sources of frame k
Init == /\ F \in 0..3 /\ next = 1 /\ frame = 1 /\ part = 0 /\ rows = <<>> /\ file = <<[n |-> -1, rows |-> <<0>>]>> /\ total = 0 /\ given = [k \in 1..Parts |-> <<>>] /\ made = FALSE
\* the file after writing rows r to part n; a file that is there is replaced only when asked to
Written(n, r) == LET replace == IF ReplaceWhenFirstPart THEN n = 0 ELSE ~made
                     f == IF replace /\ (\A i \in 1..Len(file) : file[i].n # n) THEN <<>> ELSE file IN
                 IF f # <<>> /\ f[Len(f)].n = n THEN [f EXCEPT ![Len(f)].rows = @ \o r] ELSE Append(f, [n |-> n, rows |-> r])
Write(r) == IF r = <<>> THEN UNCHANGED <<file, made>> ELSE file' = Written(part, r) /\ made' = TRUE
Output == /\ next <= N /\ frame <= Parts /\ next' = next + 1 /\ given' = [given EXCEPT ![frame] = Append(@, next)]
          /\ LET r == Append(rows, next) IN
             IF F > 0 /\ Len(r) % F = 0 THEN Write(r) /\ rows' = <<>> /\ total' = total + Len(r) ELSE rows' = r /\ UNCHANGED <<file, total, made>>
          /\ UNCHANGED <<F, frame, part>>
EndFrame == /\ frame <= Parts /\ Write(rows) /\ total' = total + Len(rows) /\ rows' = <<>> /\ part' = part + 1 /\ frame' = frame + 1 /\ UNCHANGED <<F, next, given>>
Next == Output \/ EndFrame \/ (frame > Parts /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
RowsOf(k) == IF \E i \in 1..Len(file) : file[i].n = k - 1 THEN file[CHOOSE i \in 1..Len(file) : file[i].n = k - 1].rows ELSE <<>>
\* each frame's part holds its sources, but for those still buffered; nothing else is in the file; the total is what was written
InPart == \A k \in 1..Parts : given[k] = RowsOf(k) \o (IF k = frame THEN rows ELSE <<>>)
NothingOld == frame > Parts /\ next > 1 => \A i \in 1..Len(file) : file[i].n >= 0
Counted == total = next - 1 - Len(rows)
Bounded == (F > 0 => Len(rows) < F)
=============================================================================
