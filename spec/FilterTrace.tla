----------------------------- MODULE FilterTrace ----------------------------
(* Recorded filters: what the configuration loads or refuses, and what it makes of images. *)
EXTENDS Filter, Json, IOUtils, TLC
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases)
Abs(x) == IF x < 0 THEN -x ELSE x
Kernel == IF Cfg.kind = "default" THEN Default ELSE Cfg.k
GoodAlg == Cfg.alg \in {"LUTZ", "BFS", "ASSOC"}
GoodFile == Cfg.kind \in {"default", "off", "ascii", "fits"}
Refused == IsEv("Refused") /\ TRUE = (~GoodAlg \/ ~GoodFile)
Loaded == IsEv("Loaded") /\ TRUE = (GoodAlg /\ GoodFile /\ Ev.alg = Cfg.alg /\ Ev.window /\ Ev.delta /\ Ev.filter = (Cfg.kind # "off"))
Round == IsEv("Round") /\ TRUE = (Ev.r >= Ev.n /\ Ev.r <= 2 * Ev.n)
Size == IsEv("Size") /\ TRUE = (Ev.w = Cfg.w /\ Ev.h = Cfg.h)
Total(k) == LET rows == [j \in 1..Len(k) |-> SumTo(k[j], Len(k[j]))] IN SumTo(rows, Len(k))
\* a transform is exact up to a small part of the largest sum there is
Near(v, t, s) == s[2] = 0 \/ Abs(v * s[2] - 1000 * s[1]) <= s[2] + t \div 40
Read == /\ IsEv("Read")
        /\ LET k == Kernel im == IF Ev.self THEN Cfg.var ELSE Cfg.im IN
           LET t == TLCEval(50 * Total(k)) IN
             TRUE = \A y \in 0..Ev.h - 1 : \A x \in 0..Ev.w - 1 :
               LET v == Ev.v[y * Ev.w + x + 1] IN
               IF Usable(Cfg, Ev.x + x, Ev.y + y) THEN Near(v, t, TLCEval(Filtered(Cfg, im, k, Ev.x + x, Ev.y + y))) ELSE v = 0
End == IsEv("End")
TNext == Refused \/ Loaded \/ Round \/ Size \/ Read \/ End \/ (l > Len(Evs) /\ UNCHANGED <<c, l>>)
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
