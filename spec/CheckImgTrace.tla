--------------------------- MODULE CheckImgTrace ---------------------------
(* The check images a run of the program leaves, against the images it was given and the rows of its catalogue. *)
EXTENDS Components, Json, IOUtils, TLC
VARIABLES c, l, rows
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ rows = <<>>
\* ---- frames and images; a pixel is <<x, y>> from 0
Px(f) == {<<x, y>> : x \in 0..(f.w - 1), y \in 0..(f.h - 1)}
At(f, p) == f.v[p[2] * f.w + p[1] + 1]
Sigma(f, p) == IF f.s[p[2] * f.w + p[1] + 1] = 9 THEN 3 ELSE 1
Sub(f, p) == At(f, p) - f.bg
Det(f) == {p \in Px(f) : 2 * Sub(f, p) > 7 * Sigma(f, p)}
Of(k) == {i \in 1..Len(rows) : rows[i].hdu = k - 1}
Values(e) == {e.v[i] : i \in 1..Len(e.v)} \ {0}
Showing(e, v) == {p \in Px(e) : At(e, p) = v}
Others(kind, k) == {i \in 1..Len(Evs) : Evs[i].e = "Image" /\ Evs[i].kind = kind /\ Evs[i].k = k /\ ~Evs[i].measured}
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Xs(C) == {p[1] : p \in C}
Ys(C) == {p[2] : p \in C}
Box(C) == <<MinOf(Xs(C)), MinOf(Ys(C)), MaxOf(Xs(C)), MaxOf(Ys(C))>>
\* ---- the images
\* a number of its own for every set of pixels that hang together, and nothing else
Segmentation(f, e, k) ==
  LET S == TLCEval(Det(f)) IN
  LET CC == TLCEval(Comps(S)) IN
  /\ \A p \in Px(f) : (At(e, p) # 0) = (p \in S)
  /\ \A C \in CC : \A p, q \in C : At(e, p) = At(e, q)
  /\ Cardinality(Values(e)) = Cardinality(CC)
  /\ \A i \in Others("segmentation", 3 - k) : Evs[i].there => Values(e) \cap Values(Evs[i]) = {}
\* the pixels of every row
Partition(f, e, k) ==
  /\ Values(e) = {rows[i].id : i \in Of(k)}
  /\ \A i \in Of(k) : LET r == rows[i]  C == TLCEval(Showing(e, r.id)) IN
       /\ Cardinality(C) = r.n /\ Box(C) = r.box
       /\ Sum(C, [p \in C |-> Sub(f, p)]) = r.flux
       /\ C \subseteq Det(f)
       /\ ~Cfg.clean => \A j \in Others("segmentation", k) : \A p \in C : At(Evs[j], p) = r.det
  /\ (~Cfg.clean /\ ~Cfg.multi) => {Showing(e, rows[i].id) : i \in Of(k)} = {C \in Comps(Det(f)) : Cardinality(C) >= Cfg.area}
Groups(f, e, k) ==
  /\ Values(e) = {rows[i].grp : i \in Of(k)}
  /\ \A g \in Values(e) : Cardinality(Showing(e, g)) = Sum({i \in Of(k) : rows[i].grp = g}, [i \in Of(k) |-> rows[i].n])
  /\ \A j \in Others("partition", k) : \A p \in Px(f) : LET v == At(Evs[j], p) IN
       IF v = 0 THEN At(e, p) = 0 ELSE \E i \in Of(k) : rows[i].id = v /\ rows[i].grp = At(e, p)
\* ---- rings; places in hundredths of a pixel of the frame of the detection
Over(n, s) == IF s > 0 THEN (100 * n) \div s ELSE -((100 * n) \div (-s))
Place(f, d, p) == << Over(f.at[1] + f.at[3] * p[1] - d.at[1], d.at[3]), Over(f.at[2] + f.at[4] * p[2] - d.at[2], d.at[4]) >>
Square(n) == n * n
OnCircle(q, r, R, in, out) == LET d == Square(q[1] - r.x) + Square(q[2] - r.y) IN d > Square(100 * R - 50 + in) /\ d <= Square(100 * R + out)
Far(q, r) == q[1] - r.x > 2000 \/ r.x - q[1] > 2000 \/ q[2] - r.y > 2000 \/ r.y - q[2] > 2000
Rad(r) == LET a == (250 * r.kron) \div 100 IN IF a < 350 THEN 350 ELSE a
Ell(q, r) == LET x == q[1] - r.x  y == q[2] - r.y IN r.cxx * ((x * x) \div 100) + r.cyy * ((y * y) \div 100) + r.cxy * ((x * y) \div 100)
OnEllipse(q, r, sure) ==
  IF Far(q, r) THEN ~sure ELSE
  LET e == Ell(q, r)  hi == 10 * Square(Rad(r))  lo == 10 * Square(Rad(r) - 100)  tol(v) == v \div 25 + 20000 IN
  IF sure THEN e > lo + tol(lo) /\ e < hi - tol(hi) ELSE e > lo - tol(lo) /\ e < hi + tol(hi)
Sure(kind, q, r) == IF kind = "aperture" THEN \E i \in 1..Len(Cfg.radii) : OnCircle(q, r, Cfg.radii[i], 4, -4) ELSE OnEllipse(q, r, TRUE)
May(kind, q, r) == IF kind = "aperture" THEN \E i \in 1..Len(Cfg.radii) : OnCircle(q, r, Cfg.radii[i], -4, 54) ELSE OnEllipse(q, r, FALSE)
Rings(f, e, kind, R) ==
  \A p \in Px(f) :
    LET v == At(e, p) IN
    IF v = 0 THEN \A i \in R : ~Sure(kind, Place(f, Cfg.d[rows[i].hdu + 1], p), rows[i])
    ELSE \E i \in R : rows[i].id = v /\ May(kind, Place(f, Cfg.d[rows[i].hdu + 1], p), rows[i])
Shows(f, e) ==
  CASE e.measured /\ e.kind = "measurement-background" -> (Cfg.python => \A p \in Px(f) : At(e, p) = f.bg)
    [] e.measured /\ e.kind = "measurement-variance" -> \A i \in 1..Len(e.v) : e.v[i] = f.s[i]
    [] e.measured -> Rings(f, e, e.kind, 1..Len(rows))
    [] e.kind = "segmentation" -> Segmentation(f, e, e.k)
    [] e.kind = "partition" -> Partition(f, e, e.k)
    [] e.kind = "grouping" -> Groups(f, e, e.k)
    [] e.kind = "background" -> \A p \in Px(f) : At(e, p) = f.bg
    [] e.kind = "variance" -> \A i \in 1..Len(e.v) : e.v[i] = f.s[i]
    [] e.kind = "filtered" -> \A p \in Px(f) : At(e, p) = Sub(f, p)
    [] e.kind = "thresholded" -> \A p \in Px(f) : At(e, p) = 2 * Sub(f, p) - 7 * Sigma(f, p)
    [] e.kind = "snr" -> \A p \in Px(f) : At(e, p) = (3 * Sub(f, p)) \div Sigma(f, p)
    [] OTHER -> Rings(f, e, e.kind, Of(e.k))
\* nothing is drawn on a measurement image where nothing is measured
Absent == Ev.measured /\ Ev.kind \in {"aperture", "auto-aperture"} /\ (rows = <<>> \/ (Ev.kind = "aperture" /\ ~Cfg.python))
Rows == IsEv("Rows") /\ TRUE = (Ev.rc = 0) /\ rows' = Ev.rows
Image ==
  /\ IsEv("Image")
  /\ TRUE = (LET f == IF Ev.measured THEN Cfg.m[Ev.k] ELSE Cfg.d[Ev.k] IN
             IF ~Ev.there THEN Absent
             ELSE /\ Ev.w = f.w /\ Ev.h = f.h /\ Ev.at = f.at
                  /\ Shows(f, Ev))
  /\ UNCHANGED rows
\* nothing but what was asked for
Files == IsEv("Files") /\ TRUE = (Ev.there = Ev.found) /\ UNCHANGED rows
End == IsEv("End") /\ l > 2 /\ UNCHANGED rows
TNext == Rows \/ Image \/ Files \/ End \/ (l > Len(Evs) /\ UNCHANGED <<c, l, rows>>)
TSpec == TInit /\ [][TNext]_<<c, l, rows>>
=============================================================================
