------------------------------ MODULE FitTrace ------------------------------
(* Runs of the program with linear models: fluxes (and levels) with a known answer.  The answer is worked out from   *)
(* the images, in integers: amplitudes g (flux / sum of the PSF) and pixels in hundredths.                           *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
SquareMin == 2
SquareMax == 3
SquareArea == 4
DiskMin == 5
DiskMax == 6
DiskArea == 7
Ellipse == 8
VARIABLES c, l, rows
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ rows = <<>>
None == 999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Trunc(a, b) == IF a < 0 THEN -((-a) \div b) ELSE a \div b
Round(a, b) == (2 * a + b) \div (2 * b)
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(S \ {x}, f)
Root(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
\* ---- frames
Ks == 1..Len(Cfg.m)
M(k) == Cfg.m[k]
Data(k, p) == M(k).v[p[2] * M(k).w + p[1] + 1] - M(k).bg
Noise(k, p) == LET d == Data(k, p) IN M(k).s[p[2] * M(k).w + p[1] + 1] + (IF Cfg.gain /\ d > 0 THEN d ELSE 0)
Saturated(k, p) == Cfg.hidden \/ (Cfg.sat > 0 /\ Data(k, p) > Cfg.sat)
\* ---- windows; a rectangle is <<x, y, x, y>>, <<>> where there is none
Clip(w, k) == LET r == << Max(w[1], 0), Max(w[2], 0), Min(w[3], M(k).w - 1), Min(w[4], M(k).h - 1) >> IN IF r[1] > r[3] \/ r[2] > r[4] THEN <<>> ELSE r
OnFrame(b, k) ==
  LET w == << b[1] - M(k).ox, b[2] - M(k).oy, b[3] + 2 - M(k).ox, b[4] + 2 - M(k).oy >>
  IN IF w[3] < 0 \/ w[4] < 0 \/ w[1] >= M(k).w \/ w[2] >= M(k).h THEN <<>> ELSE Clip(w, k)
Wider(w) == LET bx == (4 * (w[3] - w[1])) \div 5 + 2  by == (4 * (w[4] - w[2])) \div 5 + 2 IN << w[1] - bx, w[2] - by, w[3] + bx, w[4] + by >>
\* the window with sides W and H
Cut(w, W, H) == LET x == w[1] + Trunc(w[3] - w[1] - W, 2)  y == w[2] + Trunc(w[4] - w[2] - H, 2) IN << x, y, x + W, y + H >>
Shape(w) ==
  LET W == w[3] - w[1]  H == w[4] - w[2] IN
  CASE Cfg.window \in {SquareMin, DiskMin} -> Cut(w, Min(W, H), Min(W, H))
    [] Cfg.window \in {SquareMax, DiskMax} -> Cut(w, Max(W, H), Max(W, H))
    [] Cfg.window \in {SquareArea, DiskArea} -> Cut(w, Root(W * H), Root(W * H))
    [] OTHER -> w
Whole(r, k) == LET f == OnFrame(r.box, k) IN IF f = <<>> THEN <<>> ELSE Shape(Wider(f))
Window(r, k) == LET w == Whole(r, k) IN IF w = <<>> THEN <<>> ELSE Clip(w, k)
\* ---- the group of the classic fit
Lo(S) == CHOOSE m \in S : \A k \in S : m <= k
Hi(S) == CHOOSE m \in S : \A k \in S : m >= k
GroupBox(R) ==
  LET b == << Lo({rows[i].box[1] : i \in R}), Lo({rows[i].box[2] : i \in R}), Hi({rows[i].box[3] : i \in R}), Hi({rows[i].box[4] : i \in R}) >>  w == Wider(b)
  IN << Max(w[1], 0), Max(w[2], 0), Min(w[3], Cfg.dw - 1), Min(w[4], Cfg.dh - 1) >>
Members(i) == {j \in 1..Len(rows) : rows[j].grp = rows[i].grp}
Wins == [i \in 1..Len(rows) |-> [k \in Ks |-> IF Cfg.classic THEN OnFrame(GroupBox(Members(i)), k) ELSE Window(rows[i], k)]]
\* "in", "out" or, too close to tell, "edge"
Disk(r, k, p) ==
  LET w == Whole(r, k)
      W == w[3] - w[1] + 1  H == w[4] - w[2] + 1
      dx == 1000 * (p[1] + M(k).ox) - r.cx  dy == 1000 * (p[2] + M(k).oy) - r.cy
      rad == 500 * Min(W, H) - 1000
      d == (dx \div 10) * (dx \div 10) + (dy \div 10) * (dy \div 10)  q == (rad \div 10) * (rad \div 10)
      e == (((200 * dx) \div (10 * W)) * ((200 * dx) \div (10 * W))) + (((200 * dy) \div (10 * H)) * ((200 * dy) \div (10 * H)))
  IN CASE Cfg.classic -> "in"
       [] Cfg.window \in {DiskMin, DiskMax, DiskArea} -> IF Abs(d - q) <= 3000 THEN "edge" ELSE IF d > q THEN "out" ELSE "in"
       [] Cfg.window = Ellipse -> IF Abs(e - 100000000) <= 200000 THEN "edge" ELSE IF e > 100000000 THEN "out" ELSE "in"
       [] OTHER -> "in"
\* ---- models
Half == Cfg.pw \div 2
Near(v, d, tol) == Abs(v - d) <= tol
\* where the model of a source is, in the detection image
At(r) == << (r.cx + 500) \div 1000, (r.cy + 500) \div 1000 >>
K(r, k, p) ==
  LET x == p[1] + M(k).ox - At(r)[1] + Half  y == p[2] + M(k).oy - At(r)[2] + Half
  IN IF x < 0 \/ y < 0 \/ x >= Cfg.pw \/ y >= Cfg.pw THEN 0 ELSE Cfg.psf[y * Cfg.pw + x + 1]
Spot(r, k) == {<<At(r)[1] - M(k).ox + dx, At(r)[2] - M(k).oy + dy>> : dx \in -Half..Half, dy \in -Half..Half}
InWin(w, p) == w # <<>> /\ p[1] >= w[1] /\ p[2] >= w[2] /\ p[1] <= w[3] /\ p[2] <= w[4]
Area(w) == IF w = <<>> THEN 0 ELSE (w[3] - w[1] + 1) * (w[4] - w[2] + 1)
Pixels(w) == IF w = <<>> THEN {} ELSE (w[1]..w[3]) \X (w[2]..w[4])
Good(win, i, k, p) == InWin(win[i][k], p) /\ ~Saturated(k, p) /\ Disk(rows[i], k, p) = "in"
Usable(win, i) == Sum(Ks, [k \in Ks |-> Cardinality({p \in Pixels(win[i][k]) : Good(win, i, k, p)})])
Valid(win, i) == {k \in Ks : win[i][k] # <<>>}
Times(k) == IF k = 2 /\ ~Cfg.own THEN Cfg.twice ELSE 1
Free == IF Cfg.level \/ Cfg.own THEN 2 ELSE 1
\* ---- fitting one source to what the others leave
Rest(G, i, k, p, share) == 100 * Data(k, p) - (share * Sum(Members(i) \ {i}, [j \in Members(i) \ {i} |-> G[j][k] * K(rows[j], k, p)])) \div 2
PriorN(k) == IF Cfg.prior /\ k = 1 THEN (100000 * Cfg.psum * Cfg.pm) \div (Cfg.ps * Cfg.ps) ELSE 0
PriorM(k) == IF Cfg.prior /\ k = 1 THEN Round(1000 * Cfg.psum * Cfg.psum, Cfg.ps * Cfg.ps) ELSE 0
Num(win, G, i, k, share) == LET S == {p \in Spot(rows[i], k) : Good(win, i, k, p)} IN Sum(S, [p \in S |-> Round(1000 * K(rows[i], k, p) * Rest(G, i, k, p, share), Noise(k, p))])
Den(win, i, k) == LET S == {p \in Spot(rows[i], k) : Good(win, i, k, p)} IN Sum(S, [p \in S |-> Round(1000 * K(rows[i], k, p) * K(rows[i], k, p), Noise(k, p))])
Together(win, G, i, share) == Sum(Valid(win, i), [k \in Valid(win, i) |-> Times(k) * Num(win, G, i, k, share)]) + PriorN(1)
Weight(win, i) == Sum(Valid(win, i), [k \in Valid(win, i) |-> Times(k) * Times(k) * Den(win, i, k)]) + PriorM(1)
Fitted(win, G, i, share) ==
  IF Cfg.own THEN [k \in Ks |-> LET m == Den(win, i, k) + PriorM(k) IN IF m = 0 THEN G[i][k] ELSE Round(Num(win, G, i, k, share) + PriorN(k), m)]
  ELSE LET m == Weight(win, i) IN IF m = 0 THEN G[i] ELSE LET g == Round(Together(win, G, i, share), m) IN [k \in Ks |-> Times(k) * g]
\* squares of tenths
Squares(win, G, i, R) ==
  Sum(Valid(win, i), [k \in Valid(win, i) |->
    LET S == {p \in Pixels(win[i][k]) : Good(win, i, k, p)} IN
    Sum(S, [p \in S |-> LET r == Round(100 * Data(k, p) - Sum(R, [j \in R |-> G[j][k] * K(rows[j], k, p)]), 10) IN Round(r * r, Noise(k, p))])])
\* the fluxes of their own that something says something of
Held(win, i) == {k \in Ks : win[i][k] # <<>> \/ (Cfg.prior /\ k = 1)}
NFree(win, i) == IF Cfg.own THEN Cardinality(Held(win, i)) ELSE Free
Start(i) == LET f == IF Cfg.iso THEN rows[i].iso ELSE Cfg.f0 IN [k \in Ks |-> Round(100 * f * Times(k), Cfg.psum)]
\* ---- what can be fitted
Status(win, i) == IF Valid(win, i) = {} THEN 32 ELSE IF Usable(win, i) < (IF Cfg.classic THEN Cardinality(Members(i)) ELSE 1) * Free THEN 128 ELSE 0
Partial(win, i) == Cfg.own /\ Held(win, i) # Ks
\* one round over the sources of a group in turn; t is <<amplitudes, what the chi squares of the sources are made of>>
RECURSIVE InTurn(_, _, _, _)
InTurn(win, st, ord, t) ==
  IF ord = <<>> THEN t
  ELSE LET i == Head(ord) IN
       IF st[i] # 0 THEN InTurn(win, st, Tail(ord), t)
       ELSE LET g == TLCEval(Fitted(win, t[1], i, Cfg.deblend)) IN
            LET G == TLCEval([t[1] EXCEPT ![i] = g]) IN
            LET s == TLCEval(Squares(win, G, i, Members(i))) IN
            InTurn(win, st, Tail(ord), TLCEval(<<G, [t[2] EXCEPT ![i] = Append(@, s)]>>))
RECURSIVE Rounds(_, _, _, _, _)
Rounds(win, st, ord, n, t) == IF n = 0 THEN t ELSE LET u == TLCEval(InTurn(win, st, ord, t)) IN Rounds(win, st, ord, n - 1, u)
NRounds == IF Cfg.stop THEN 1 ELSE Cfg.meta
\* ---- the rows
Close(v, x) == v # None /\ Abs(v - x) <= 4 + Abs(x) \div 50
CloseChi(v, s, n) == n <= 0 \/ (v # None /\ Abs(v - (10 * s) \div n) <= 60 + v \div 25)
Unfitted(r, status) ==
  /\ r.flags = status
  /\ \A k \in Ks : r.g[k] = None /\ r.f[k] = None /\ r.e[k] = None
  /\ r.q = None /\ r.qe = None
  /\ \A i \in 1..3 : r.v[i] = None /\ r.ve[i] = None
  /\ r.meta = 0 /\ r.n = 0
  /\ \A i \in 1..Len(r.chis) : r.chis[i] = 0 /\ r.ns[i] = 0
Related(r) ==
  /\ r.v[1] # None /\ r.v[3] # None /\ r.ve[1] = 0 /\ r.ve[3] = 0
  /\ r.v[1] = 100 * (At(r)[1] + 1) /\ r.v[3] = 100 * (At(r)[2] + 1)
  /\ r.v[2] = r.f[1] /\ r.ve[2] = r.e[1]
  /\ IF r.f[1] = None THEN r.q = None ELSE r.q # None /\ Near(r.q, 2 * r.f[1] - r.v[1], 2)
  /\ (r.e[1] # None) => Near(r.qe, 2 * r.e[1], 2)
  /\ (~Cfg.own /\ Len(Cfg.m) = 2) => (Near(r.f[2], Cfg.twice * r.f[1], 2) /\ (r.e[1] # None => Near(r.e[2], Cfg.twice * r.e[1], 2)))
Areas(win, i) ==
  IF Cfg.classic THEN rows[i].ax = <<99>> /\ rows[i].ay = <<99>>
  ELSE \A k \in Ks : LET w == win[i][k] IN rows[i].ax[k] = (IF w = <<>> THEN -1 ELSE w[3] - w[1] + 1) /\ rows[i].ay[k] = (IF w = <<>> THEN -1 ELSE w[4] - w[2] + 1)
Edge(win, i) == \E k \in Ks : \E p \in Pixels(win[i][k]) : Disk(rows[i], k, p) = "edge"
\* what a fit says of its errors: the scatter of all the residuals
Errors(win, i, squares) ==
  LET r == rows[i]
      pr == IF Cfg.prior /\ r.f[1] # None THEN LET d == (r.f[1] - 100 * Cfg.pm) \div (10 * Cfg.ps) IN d * d ELSE 0
      s == squares + pr
      n == Sum(Ks, [k \in Ks |-> Area(win[i][k])]) + (IF Cfg.prior THEN 1 ELSE 0) - Free
      q == Round(10 * s, n)
      Right(e, m) == (n > 0 /\ q < 1000000 /\ m > 0) => LET x == Round(1000 * q, m) * 10 IN
                       x < 1000000 => (e # None /\ (e < 30000 => Abs(e * e - x * Cfg.psum * Cfg.psum) <= (x * Cfg.psum * Cfg.psum) \div 12 + 2000))
  IN IF Cfg.own THEN \A k \in Held(win, i) : Right(r.e[k], Den(win, i, k) + PriorM(k)) ELSE Right(r.e[1], Weight(win, i))
Solution(win, st, i, t) ==
  LET r == rows[i]  n == Usable(win, i) - NFree(win, i) IN
  IF st[i] # 0 THEN Unfitted(r, st[i]) /\ r.chi = 0
  ELSE /\ r.flags = (IF Partial(win, i) THEN 64 ELSE 0)
       /\ Related(r)
       /\ r.meta = NRounds
       /\ \A k \in Ks : IF Cfg.own /\ k \notin Held(win, i) THEN r.g[k] = None /\ r.f[k] = None /\ r.e[k] = None ELSE Close(r.g[k], t[1][i][k])
       /\ r.n = Sum(1..Cfg.meta, r.ns) /\ r.n >= NRounds
       /\ \A m \in 1..Cfg.meta : IF m > NRounds THEN r.chis[m] = 0 /\ r.ns[m] = 0 ELSE CloseChi(r.chis[m], t[2][i][m], n)
       /\ n > 0 => r.chi = r.chis[NRounds]
       /\ (Cfg.deblend = 2 \/ Members(i) = {i}) => Errors(win, i, t[2][i][NRounds])
\* the sources of a group in turn, in one order or another
Begun == <<[i \in 1..Len(rows) |-> Start(i)], [i \in 1..Len(rows) |-> <<>>]>>
InOrder(win, st, R, ord) == LET t == TLCEval(Rounds(win, st, ord, NRounds, Begun)) IN \A i \in R : Solution(win, st, i, t)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == Lo(S) IN <<m>> \o Ascending(S \ {m})
Orders(R) == {o \in [1..Cardinality(R) -> R] : \A a, b \in 1..Cardinality(R) : a # b => o[a] # o[b]}
Iterative(win, st) ==
  /\ \A i \in 1..Len(rows) : Areas(win, i) /\ Len(rows[i].chis) = Cfg.meta /\ Len(rows[i].ns) = Cfg.meta
  /\ \A R \in {Members(i) : i \in 1..Len(rows)} :
       \/ \E j \in R : Edge(win, j)
       \* with no more pixels than parameters chi squares say nothing, nor do rounds end by them
       \/ (\E j \in R : st[j] = 0 /\ Usable(win, j) <= NFree(win, j)) /\ \A i \in R : IF st[i] # 0 THEN Unfitted(rows[i], st[i]) ELSE rows[i].flags = (IF Partial(win, i) THEN 64 ELSE 0) /\ Related(rows[i])
       \/ InOrder(win, st, R, Ascending(R))
       \/ (Cardinality(R) > 1 /\ \E o \in Orders(R) : InOrder(win, st, R, o))
Known(i) == [k \in Ks |-> IF rows[i].g[k] = None THEN 0 ELSE rows[i].g[k]]
\* all the sources of a group together: each is fitted to what the others leave
Classic(win, st) ==
  LET G == TLCEval([i \in 1..Len(rows) |-> Known(i)]) IN
  \A i \in 1..Len(rows) : LET r == rows[i]  n == Usable(win, i) - Sum(Members(i), [j \in Members(i) |-> NFree(win, j)]) IN
    /\ Areas(win, i)
    /\ Len(r.chis) = 1 /\ Len(r.ns) = 1
    /\ IF st[i] # 0 THEN Unfitted(r, st[i]) /\ r.chi = None
       ELSE /\ r.flags = (IF Partial(win, i) THEN 64 ELSE 0)
            /\ Related(r)
            /\ r.meta = 1 /\ r.n = r.ns[1] /\ r.n >= 1 /\ (n > 0 => r.chi = r.chis[1])
            /\ LET g == TLCEval(Fitted(win, G, i, 2)) IN \A k \in Ks : IF Cfg.own /\ k \notin Held(win, i) THEN r.g[k] = None /\ r.f[k] = None /\ r.e[k] = None ELSE Close(r.g[k], g[k])
            /\ CloseChi(r.chi, Squares(win, G, i, Members(i)), n)
            /\ Members(i) = {i} => Errors(win, i, Squares(win, G, i, Members(i)))
\* a level as well: what is left has no weight along either model
Left(i, k, p) == 100 * Data(k, p) - rows[i].g[k] * K(rows[i], k, p) - rows[i].b
Levels(win, st) ==
  \A i \in 1..Len(rows) : LET r == rows[i]  n == Usable(win, i) - 2 IN
    /\ Areas(win, i)
    /\ Len(r.chis) = Cfg.meta /\ Len(r.ns) = Cfg.meta
    /\ Edge(win, i) \/
       IF st[i] # 0 THEN Unfitted(r, st[i]) /\ r.chi = 0 /\ r.b = None
       ELSE /\ r.flags = 0
            /\ Related(r)
            /\ r.b # None
            /\ LET S == {<<k, p>> \in {<<k, p>> \in Ks \X ((0..40) \X (0..40)) : p \in Pixels(win[i][k])} : Good(win, i, k, p)}
                   a == Sum(S, [x \in S |-> (4 * Left(i, x[1], x[2])) \div Noise(x[1], x[2])])
                   b == Sum(S, [x \in S |-> (4 * Times(x[1]) * K(r, x[1], x[2]) * Left(i, x[1], x[2])) \div Noise(x[1], x[2])])
                   s == Sum(S, [x \in S |-> LET d == Round(Left(i, x[1], x[2]), 10) IN Round(d * d, Noise(x[1], x[2]))])
                   p == IF Cfg.prior THEN (4 * Cfg.psum * (100 * Cfg.pm - r.f[1])) \div (Cfg.ps * Cfg.ps) ELSE 0
                   kk == Sum(S, [x \in S |-> LET q == Times(x[1]) * K(r, x[1], x[2]) IN Round(4 * q * q, Noise(x[1], x[2]))]) + (IF Cfg.prior THEN Round(4 * Cfg.psum * Cfg.psum, Cfg.ps * Cfg.ps) ELSE 0)
                   one == Sum(S, [x \in S |-> Round(4 * Times(x[1]) * K(r, x[1], x[2]), Noise(x[1], x[2]))])
                   chi == IF n <= 0 \/ r.chi = None \/ r.chi > 1000000 THEN 1000 ELSE r.chi \div 1000
               IN \* no more than hundredths, or a sixth of its error, away from the least squares
                  /\ Abs(a) <= 12 * Cardinality(S) + 4 * one + 40 + 60 * Root(chi * Cardinality(S))
                  /\ Abs(b + p) <= 6 * kk + 6 * one + 40 + 30 * Root(chi * kk)
                  /\ CloseChi(r.chi, s, n)
Rows ==
  /\ IsEv("Rows")
  /\ rows' = Ev.rows
  /\ TRUE = (Ev.rc = 0)
Solved ==
  LET win == TLCEval(Wins) IN
  LET st == TLCEval([i \in 1..Len(rows) |-> Status(win, i)]) IN
  IF Cfg.classic THEN Classic(win, st) ELSE IF Cfg.level THEN Levels(win, st) ELSE Iterative(win, st)
\* ---- the images
Drawn(win, st, k) == {i \in 1..Len(rows) : st[i] = 0 /\ win[i][k] # <<>>}
Modelled(win, st, k, p) == LET S == {i \in Drawn(win, st, k) : InWin(win[i][k], p)} IN Sum(S, [i \in S |-> rows[i].g[k] * K(rows[i], k, p) + rows[i].b])
Shown(e) ==
  LET win == TLCEval(Wins) IN
  LET st == TLCEval([i \in 1..Len(rows) |-> Status(win, i)])  k == e.k IN
  LET R == {i \in 1..Len(rows) : win[i][k] # <<>>} IN
  /\ e.kind = "window" => (e.there = (R # {} /\ ~Cfg.classic))
  /\ e.kind # "window" => (Drawn(win, st, k) # {} => e.there)
  /\ e.there =>
     /\ e.w = M(k).w /\ e.h = M(k).h
     /\ (\E i \in R : Edge(win, i)) \/
        \A p \in (0..(e.w - 1)) \X (0..(e.h - 1)) : LET v == e.v[p[2] * e.w + p[1] + 1] IN
        CASE e.kind = "window" -> v = Sum(R, [i \in R |-> IF ~InWin(win[i][k], p) THEN 0 ELSE IF Good(win, i, k, p) THEN 2 ELSE 1])
          [] e.kind = "model" -> LET m == Modelled(win, st, k, p) IN Abs(v - m) <= 12
          [] OTHER -> LET m == Modelled(win, st, k, p) IN Abs(v - (100 * Data(k, p) - m)) <= 12
Image == IsEv("Image") /\ TRUE = ((l = 2 => Solved) /\ Shown(Ev)) /\ UNCHANGED rows
End == IsEv("End") /\ l > 2 /\ UNCHANGED rows
TNext == Rows \/ Image \/ End \/ (l > Len(Evs) /\ UNCHANGED <<c, l, rows>>)
TSpec == TInit /\ [][TNext]_<<c, l, rows>>
=============================================================================
