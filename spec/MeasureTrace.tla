--------------------------- MODULE MeasureTrace ---------------------------
EXTENDS MeasureAbs, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Set(s) == {s[i] : i \in 1..Len(s)}
TInit == MInit /\ l = 1 /\ c \in 1..Len(Cases)
TNext == \/ IsEv("Put") /\ MPut(Set(Ev.g))
         \/ IsEv("Id") /\ MId(Ev.src, Ev.id)
         \/ IsEv("PutRet") /\ MPutRet
         \/ IsEv("Row") /\ MRow(Ev.src, Ev.id)
         \/ IsEv("Fail") /\ MFail(Ev.src)
         \/ IsEv("Seen") /\ MSeen(Set(Ev.g)) /\ Len(Ev.g) = Cardinality(Set(Ev.g))
         \/ IsEv("Deliver") /\ MDeliver(Set(Ev.g)) /\ Len(Ev.g) = Cardinality(Set(Ev.g))
         \/ IsEv("Drained") /\ MDrained
         \/ IsEv("Reported") /\ MReported
         \/ IsEv("End") /\ (failed \/ (out = 1..Len(put) /\ seen = out)) /\ Ev.sigin = Ev.sigout /\ UNCHANGED mvars
         \/ l > Len(Evs) /\ UNCHANGED <<mvars, c, l>>
TSpec == TInit /\ [][TNext]_<<mvars, c, l>>
Unique == \A x, y \in DOMAIN ids : x # y => ids[x] # ids[y]
=============================================================================
