---------------------------- MODULE HilbertTrace ----------------------------
EXTENDS Hilbert, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases)
\* the rectangles read by a traversal: together every pixel of the image exactly once, each within one tile, no tile come back to
TileOf(r) == <<r[1] \div Cfg.tw, r[2] \div Cfg.th>>
Inside(r) == /\ r[1] >= 0 /\ r[2] >= 0 /\ r[3] > 0 /\ r[4] > 0 /\ r[1] + r[3] <= Cfg.w /\ r[2] + r[4] <= Cfg.h
             /\ (r[1] + r[3] - 1) \div Cfg.tw = TileOf(r)[1] /\ (r[2] + r[4] - 1) \div Cfg.th = TileOf(r)[2]
RECURSIVE Area(_)
Area(rs) == IF rs = <<>> THEN 0 ELSE rs[1][3] * rs[1][4] + Area(Tail(rs))
Pixels(r) == {<<x, y>> : x \in r[1]..(r[1] + r[3] - 1), y \in r[2]..(r[2] + r[4] - 1)}
Covers(rs) == /\ \A i \in 1..Len(rs) : Inside(rs[i])
              /\ UNION {Pixels(rs[i]) : i \in 1..Len(rs)} = (0..(Cfg.w - 1)) \X (0..(Cfg.h - 1))
              /\ Area(rs) = Cfg.w * Cfg.h
              /\ \A i, j \in 1..Len(rs) : i < j /\ TileOf(rs[i]) = TileOf(rs[j]) => \A k \in i..j : TileOf(rs[k]) = TileOf(rs[i])
TNext == \/ IsEv("Curve") /\ AllOnce(Ev.p, Pow2(Ev.size)) /\ Steps(Ev.p)
         \/ IsEv("Point") /\ Ev.p = Evs[Ev.of].p[Ev.i + 1]
         \/ IsEv("Tiles") /\ Covers(Ev.r)
         \* as many detections as there are, each with its pixels once
         \/ IsEv("End")
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
