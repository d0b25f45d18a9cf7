----------------------------- MODULE AssocTrace -----------------------------
(* Recorded associations: what the configuration makes of the options, the matches of detections, the sources of the catalogue. *)
EXTENDS Assoc, Json, IOUtils, TLC
VARIABLES c, l, cat
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ cat = [cats |-> <<>>, idx |-> <<>>, names |-> <<>>]
NC == Len(Cfg.types)
NR == Len(Cfg.rows)
Lines == Cfg.lines
\* roles of the columns
World == IF Cfg.file THEN Has(Lines, "ra") /\ Has(Lines, "dec") ELSE Cfg.world
Positive(n) == IF n > 0 THEN n ELSE 0
X == IF Cfg.file THEN Named(Lines, IF World THEN "ra" ELSE "x") ELSE Cfg.columns[1]
Y == IF Cfg.file THEN Named(Lines, IF World THEN "dec" ELSE "y") ELSE Cfg.columns[2]
W == IF Cfg.file THEN Named(Lines, "weight") ELSE IF Len(Cfg.columns) = 3 THEN Positive(Cfg.columns[3]) ELSE 0
G == IF Cfg.file THEN Named(Lines, "group_id") ELSE Cfg.G
S == IF Cfg.file THEN Named(Lines, "pixel_size") ELSE Cfg.S
HW == LET h == IF Cfg.file THEN Named(Lines, "pixel_half_width") ELSE Cfg.HW IN IF h > 0 THEN h ELSE S
HH == LET h == IF Cfg.file THEN Named(Lines, "pixel_half_height") ELSE Cfg.HH IN IF h > 0 THEN h ELSE S
Custom == { i \in 1..Len(Lines) : Lines[i].name \notin Reserved }
CopySet == IF Cfg.file THEN { ColumnOf(Lines, i) : i \in Custom } ELSE { Cfg.copy[i] : i \in 1..Len(Cfg.copy) }
GoodFile == /\ ~Cfg.nofile
            /\ \A i \in 1..Len(Lines) : ~Lines[i].odd
            /\ LET n == { s \in {"x", "y", "ra", "dec"} : Has(Lines, s) } IN n \in {{"x", "y"}, {"ra", "dec"}}
GoodOptions == /\ Cfg.mode \in Modes /\ Cfg.filter \in {"ALL", "MATCHED", "UNMATCHED"}
               /\ IF Cfg.file THEN GoodFile ELSE Cfg.odd = ""
InTable(n) == n \in 1..NC
GoodCatalog == /\ Cfg.there /\ ~Cfg.test
               /\ Cfg.file \/ Len(Cfg.columns) \in {2, 3}
               /\ World \/ Len(Cfg.exts) > 0
               /\ InTable(X) /\ InTable(Y)
               /\ W <= NC /\ G <= NC /\ HW <= NC /\ HH <= NC
               /\ \A n \in CopySet : InTable(n) /\ Cfg.types[n] # "text"
Good == GoodOptions /\ (Cfg.cat => GoodCatalog)
Refused == IsEv("Refused") /\ TRUE = ~Good /\ UNCHANGED cat
\* ---------------------------------------------------------------- the catalogue
At(i, n) == Cfg.rows[i][n]
\* lin = origin and step along x and y, quarters: world = origin + step * pixel
PerStep(s) == IF s < 0 THEN -(1000 \div (-s)) ELSE 1000 \div s
ToPixel(v, o, s) == (v - o) * PerStep(s)
ToWorld(v, o, s) == o * 250 + ((s * (v - 4)) * 125) \div 2
Entry(e, i, ext) ==
  LET x == At(i, X)  y == At(i, Y)  lin == IF Cfg.exts = <<>> THEN <<0, 0, 4, 4>> ELSE Cfg.exts[ext] IN
  /\ IF World THEN e.ra = x * 250 /\ e.dec = y * 250 /\ (Cfg.exts = <<>> \/ (e.x = ToPixel(x, lin[1], lin[3]) /\ e.y = ToPixel(y, lin[2], lin[4])))
     ELSE e.x = x * 250 - 1000 /\ e.y = y * 250 - 1000 /\ e.ra = ToWorld(x, lin[1], lin[3]) /\ e.dec = ToWorld(y, lin[2], lin[4])
  /\ e.wt = (IF W > 0 THEN At(i, W) * 250 ELSE 1000)
  /\ e.g = (IF G > 0 THEN At(i, G) \div 4 ELSE 0)
  /\ e.w = (IF HW > 0 /\ HH > 0 THEN At(i, HW) * 250 ELSE Cfg.size * 250)
  /\ e.h = (IF HW > 0 /\ HH > 0 THEN At(i, HH) * 250 ELSE Cfg.size * 250)
  /\ e.v = [k \in 1..Len(Ev.idx) |-> At(i, Ev.idx[k]) * 250]
Exts == IF Cfg.exts = <<>> THEN 1 ELSE Len(Cfg.exts)
Loaded ==
  /\ IsEv("Loaded")
  /\ TRUE = (/\ Good
             /\ Ev.mode = Cfg.mode /\ Ev.radius = Cfg.radius * 250
             /\ IF Cfg.file THEN /\ Len(Ev.names) = Cardinality(Custom) /\ Len(Ev.idx) = Len(Ev.names)
                                 /\ { <<Ev.names[k], Ev.idx[k]>> : k \in 1..Len(Ev.idx) } = { <<Lines[i].name, ColumnOf(Lines, i)>> : i \in Custom }
                ELSE Ev.names = <<>> /\ Ev.idx = Cfg.copy
             /\ IF Cfg.cat THEN /\ Len(Ev.cats) = Exts
                                /\ \A x \in 1..Exts : Len(Ev.cats[x]) = NR /\ \A i \in 1..NR : Entry(Ev.cats[x][i], i, x)
                ELSE Ev.cats = <<>>)
  /\ cat' = [cats |-> Ev.cats, idx |-> Ev.idx, names |-> Ev.names]
\* ---------------------------------------------------------------- a detection
Info == LET i == Ev.info IN
  /\ i.match = Ev.match
  /\ Ev.match => /\ i.n = Len(Ev.v) /\ i.v = Ev.v
                 /\ IF cat.names # <<>> THEN i.named = Ev.v ELSE i.named = <<>>
Source ==
  /\ IsEv("Source")
  /\ LET k == IF cat.cats = <<>> THEN <<>> ELSE cat.cats[Ev.ext]
         x == Ev.x * 250  y == Ev.y * 250
         N == TLCEval(Near(k, x, y, Cfg.radius * 250))
         n == Len(cat.idx)
         CH == TLCEval(Chosen(Cfg.mode, k, N, x, y)) IN
     TRUE = (/\ Ev.match = (N # {})
             /\ IF N = {} THEN Ev.g = 0
                ELSE /\ Len(Ev.v) = n
                     /\ CASE ~Combines(Cfg.mode) -> \E i \in CH : Ev.v = k[i].v /\ Ev.g = k[i].g /\ Ev.w = k[i].w /\ Ev.h = k[i].h
                          [] Cfg.mode = "SUM" -> \A j \in 1..n : IsSum(Ev.v[j], k, N, j)
                          [] Cfg.mode = "MAG_SUM" -> Len(Ev.flux) = n /\ \A j \in 1..n : IsMagSum(Ev.flux[j], k, N, j)
                          [] OTHER -> \A j \in 1..n : IsMean(Ev.v[j], Cfg.mode, k, N, j)
             /\ Info
             /\ Ev.kept = (CASE Cfg.filter = "ALL" -> 1 [] Cfg.filter = "MATCHED" -> (IF N # {} THEN 1 ELSE 0) [] OTHER -> (IF N = {} THEN 1 ELSE 0)))
  /\ UNCHANGED cat
\* ---------------------------------------------------------------- the sources of the catalogue
Rect(s, f) ==
  LET cx == (s.ra \div 250 - f[3]) * PerStep(f[5])  cy == (s.dec \div 250 - f[4]) * PerStep(f[6])
      nx == Needed(cx, s.w, f[1])  ny == Needed(cy, s.h, f[2]) IN
  /\ ~s.bad
  /\ IF s.rect = <<>> THEN nx = {} \/ ny = {}
     ELSE Covers(s.rect[1], s.rect[3], cx, s.w, f[1]) /\ Covers(s.rect[2], s.rect[4], cy, s.h, f[2])
Sources ==
  /\ IsEv("Sources")
  /\ TRUE = (/\ Len(Ev.list) = NR /\ Ev.unique /\ Ev.signals >= 1
             /\ \A i \in 1..NR : LET s == Ev.list[i]  e == cat.cats[1][i] IN
                  /\ s.match /\ s.ra = e.ra /\ s.dec = e.dec /\ s.v = e.v /\ s.w = e.w /\ s.h = e.h /\ s.g = e.g
                  /\ Rect(s, Ev.frame))
  /\ UNCHANGED cat
End == IsEv("End") /\ UNCHANGED cat
TNext == Refused \/ Loaded \/ Source \/ Sources \/ End \/ (l > Len(Evs) /\ UNCHANGED <<c, l, cat>>)
TSpec == TInit /\ [][TNext]_<<c, l, cat>>
=============================================================================
