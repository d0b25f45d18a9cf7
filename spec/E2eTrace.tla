------------------------------ MODULE E2eTrace ------------------------------
(* The real program run several times on the same files. In the plain mode   *)
(* (nothing but segmentation) the catalogue is computed here from the images. *)
(* The first run has no threads; every other one must give the same rows.      *)
EXTENDS Components, TLC, Json, IOUtils, Sequences
VARIABLES c, l, ref    \* ref: the parts of the first run
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ ref = <<>>
RECURSIVE Flat(_, _)
Flat(ps, i) == IF i > Len(ps) THEN <<>> ELSE ps[i].rows \o Flat(ps, i + 1)
RowsOf(ps) == Flat(ps, 1)
\* ---- what the image says
Detected(fr) == {<<p % fr.w, p \div fr.w>> : p \in {q \in 0..(fr.w * fr.h - 1) : 2 * fr.v[q + 1] > Cfg.thr2}}
Sources(fr) == {C \in Comps(Detected(fr)) : Cardinality(C) >= Cfg.area}
Val(fr, p) == fr.v[p[2] * fr.w + p[1] + 1]
Xs(C) == {p[1] : p \in C}
Ys(C) == {p[2] : p \in C}
Desc(fr, C) == <<<<MinOf(Xs(C)), MinOf(Ys(C)), MaxOf(Xs(C)), MaxOf(Ys(C))>>, Cardinality(C), MaxOf({Val(fr, p) : p \in C})>>
RowDesc(r) == <<r.box, r.n, r.peak>>
\* the rows of the frame of HDU h (from 0): one for each source
Count(s, P(_)) == Cardinality({i \in 1..Len(s) : P(s[i])})
FrameRows(rows, h) == SelectSeq(rows, LAMBDA r : r.hdu = h)
PlainFrame(rows, h) == LET fr == Cfg.frames[h + 1] IN LET want == TLCEval(Sources(fr)) IN LET mine == FrameRows(rows, h) IN
  /\ Len(mine) = Cardinality(want)
  /\ \A C \in want : Cardinality({i \in 1..Len(mine) : RowDesc(mine[i]) = Desc(fr, C)}) = Cardinality({D \in want : Desc(fr, D) = Desc(fr, C)})
Plain(rows) == /\ \A h \in 0..(Len(Cfg.frames) - 1) : PlainFrame(rows, h)
               /\ \A i \in 1..Len(rows) : rows[i].hdu \in 0..(Len(Cfg.frames) - 1)
               /\ \A i \in 1..(Len(rows) - 1) : rows[i].det < rows[i + 1].det
\* frames in order, ids unique, numbers of groups in the order of the rows' groups
Ordered(rows) == \A i \in 1..(Len(rows) - 1) : rows[i].hdu <= rows[i + 1].hdu
Single(ps) == \A i \in 1..Len(ps) : \A j, k \in 1..Len(ps[i].rows) : ps[i].rows[j].hdu = ps[i].rows[k].hdu
Distinct(ps) == \A i, j \in 1..Len(ps) : i < j => ps[i].name # ps[j].name
Numbered(rows) == \A i \in 1..Len(rows) : rows[i].id = i
Contiguous(rows) == \A i, j \in 1..Len(rows) : i < j /\ rows[i].grp = rows[j].grp => rows[j - 1].grp = rows[j].grp
ById(rows) == [i \in 1..Len(rows) |-> CHOOSE r \in {rows[k] : k \in 1..Len(rows)} : r.id = i]
AllIds(rows) == {rows[i].id : i \in 1..Len(rows)} = 1..Len(rows)
SameGroups(a, b) == \A i, j \in 1..Len(a) : (a[i].grp = a[j].grp) <=> (b[i].grp = b[j].grp)
Shape(ps) == [i \in 1..Len(ps) |-> <<ps[i].name, {ps[i].rows[k].id : k \in 1..Len(ps[i].rows)}>>]
Good(rows) == /\ Ordered(rows) /\ Contiguous(rows) /\ AllIds(rows)
              /\ Cfg.fmt # "ASCII" => Single(Ev.parts) /\ Distinct(Ev.parts)
TRun == /\ IsEv("Run")
        /\ TRUE = (LET rows == TLCEval(RowsOf(Ev.parts)) IN
                   /\ Ev.rc = 0 /\ Good(rows) /\ (Ev.sorted => Numbered(rows))
                   /\ IF l = 1 THEN Cfg.plain => Plain(rows)
                      ELSE LET a == TLCEval(RowsOf(ref)) IN LET b == TLCEval(ById(rows)) IN
                           /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i].all = b[i].all
                           /\ SameGroups(a, b) /\ Shape(Ev.parts) = Shape(ref))
        /\ ref' = IF l = 1 THEN Ev.parts ELSE ref
TNext ==
  \/ TRun
  \* four times the program, nothing but its catalogue
  \/ IsEv("End") /\ l = 5 /\ UNCHANGED ref
  \/ l > Len(Evs) /\ UNCHANGED <<c, l, ref>>
TSpec == TInit /\ [][TNext]_<<c, l, ref>>
=============================================================================
