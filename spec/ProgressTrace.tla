---------------------------- MODULE ProgressTrace ----------------------------
(* Reports of several threads and what is shown: every count shown lies        *)
(* between what had been reported and what was being reported, none goes back, *)
(* one is shown at a time, and when all is reported the last one shows it all. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES c, l, lo, hi, last, open, shown, block, done, tot
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Zero == [k \in 1..4 |-> 0]
Label == <<"Segmentation", "Detected", "Deblended", "Measured">>
TInit == l = 1 /\ c \in 1..Len(Cases) /\ lo = Zero /\ hi = Zero /\ last = Zero /\ open = FALSE /\ shown = FALSE /\ block = <<>> /\ done = FALSE /\ tot = Zero
Add(f) == [f EXCEPT ![Ev.k] = IF Ev.k = 1 THEN Ev.n ELSE @ + Ev.n]
Call == hi' = Add(hi) /\ UNCHANGED <<lo, last, open, shown, block, done, tot>>
\* a report is over when it has been shown
Ret == /\ lo' = Add(lo) /\ shown /\ UNCHANGED <<hi, last, open, shown, block, done, tot>>
       /\ \A k \in 1..4 : last[k] >= (Add(lo))[k]
In(v, k) == v >= lo[k] /\ v <= hi[k]
Shown == /\ ~open /\ open' = TRUE /\ Len(Ev.i) = 4
         /\ \A k \in 1..4 : Ev.i[k].l = Label[k] /\ In(Ev.i[k].d, k) /\ Ev.i[k].d >= last[k]
         /\ Ev.i[1].t = (IF Ev.i[1].d = 0 /\ ~(\E i \in 1..(l - 1) : Evs[i].e = "Call" /\ Evs[i].k = 1) THEN 0 ELSE Ev.i[1].t) /\ Ev.i[1].t \in {0, 40}
         /\ Ev.i[2].t <= 0 /\ Ev.i[3].t <= 0 /\ In(Ev.i[4].t, 3)
         /\ last' = [k \in 1..4 |-> Ev.i[k].d] /\ tot' = [k \in 1..4 |-> Ev.i[k].t] /\ shown' = TRUE /\ UNCHANGED <<lo, hi, block, done>>
ShownEnd == open /\ open' = FALSE /\ UNCHANGED <<lo, hi, last, shown, block, done, tot>>
\* the logger prints what it was told last, in blocks of four lines
Line == /\ block' = (IF Ev.k = 1 THEN <<Ev.done>> ELSE Append(block, Ev.done)) /\ Len(block') = Ev.k
        /\ Ev.done = last[Ev.k] /\ Ev.total = (IF tot[Ev.k] > 0 THEN tot[Ev.k] ELSE -1) /\ UNCHANGED <<lo, hi, last, open, shown, done, tot>>
Final == lo = hi /\ (\A k \in 1..4 : last[k] = hi[k]) /\ block' = <<>> /\ UNCHANGED <<lo, hi, last, open, shown, done, tot>>
Done == ~done /\ Ev.d /\ lo = hi /\ done' = TRUE /\ (Cfg.logger => block = hi) /\ UNCHANGED <<lo, hi, last, open, shown, block, tot>>
\* threads that really run at the same time
Race == /\ ~Ev.back /\ ~Ev.torn /\ Ev.enough /\ UNCHANGED <<lo, hi, last, open, shown, block, done, tot>>
        /\ Ev.last = <<4 * ((Cfg.each - 1) \div 4), Cfg.threads * Cfg.each, Cfg.threads * Cfg.each * Cfg.size, Cfg.threads * Cfg.each * Cfg.size>>
Same == UNCHANGED <<lo, hi, last, open, shown, block, done, tot>>
TNext == \/ IsEv("Call") /\ Call
         \/ IsEv("Ret") /\ Ret
         \/ IsEv("Shown") /\ Shown
         \/ IsEv("ShownEnd") /\ ShownEnd
         \/ IsEv("Line") /\ Line
         \/ IsEv("Lines") /\ Same
         \/ IsEv("Final") /\ Final
         \/ IsEv("Done") /\ Done
         \/ IsEv("Race") /\ Race
         \/ IsEv("End") /\ ~open /\ (("logger" \in DOMAIN Cfg) => done) /\ Same
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>> /\ Same
TSpec == TInit /\ [][TNext]_<<c, l, lo, hi, last, open, shown, block, done, tot>>
=============================================================================
