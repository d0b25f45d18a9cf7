---------------------------- MODULE FittingTrace ----------------------------
EXTENDS Fitting, Json, IOUtils
VARIABLES c, l, pv, bl
\* pv: engine values of the parameters; bl: the residual blocks registered
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == /\ l = 1 /\ c \in 1..Len(Cases) /\ bl = <<>>
         /\ pv = IF Cfg.kind = "manager" THEN [i \in 1..Len(Cfg.f) |-> Cfg.init[i] \div Cfg.f[i]]
                 ELSE IF Cfg.kind = "residuals" THEN [i \in 1..Len(Cfg.init) |-> Cfg.init[i] \div 2] ELSE <<>>
\* converters
Sig == /\ Near(Ev.w, SigWorld(Ev.lo, Ev.hi, Ev.k), 1) /\ Near(Ev.d, SigSlope(Ev.lo, Ev.hi, Ev.k), 2) /\ Near(Ev.back, (Ev.k * 693147) \div 10, 2)
Exp == LET w == ExpWorld(Ev.lo, Ev.n, Ev.k)  d == ExpSlope(Ev.lo, Ev.n, Ev.k) IN
       /\ Near(Ev.w, 1000 * w, 1 + (w \div 1000)) /\ Near(Ev.d, d, 5 + (d \div 1000)) /\ Near(Ev.back, (Ev.k * 693147) \div 10, 2)
Lin == Ev.w = Ev.f * Ev.v /\ Ev.d = Ev.f /\ Ev.back = Ev.v /\ Ev.nw = Ev.v /\ Ev.nd = 1 /\ Ev.nback = Ev.v
InRange == LET lo == 1000 * Ev.lo  hi == 1000 * Ev.hi IN
         /\ Ev.fin
         /\ \A i \in 1..Len(Ev.ws) : Ev.ws[i] >= lo /\ Ev.ws[i] <= hi /\ Near(Ev.again[i], Ev.ws[i], 2) /\ (i > 1 => Ev.ws[i - 1] <= Ev.ws[i])
         /\ \A i \in 1..Len(Ev.in) : Near(Ev.back[i], Ev.in[i], 2)
         /\ Near(Ev.beyond[1], lo, 2) /\ Near(Ev.beyond[2], hi, 2)
Refuse == Ev.sig = (Ev.lo > Ev.hi) /\ Ev.exp = (Ev.lo > Ev.hi \/ Ev.lo <= 0)
\* the manager
Known == Len(Cfg.order)
Of(k) == Cfg.order[k] + 1
World(v) == [i \in 1..Len(v) |-> v[i] * Cfg.f[i]]
Values == Ev.n = Known /\ \A k \in 1..Len(Ev.v) : Ev.v[k] = IF k <= Known THEN pv[Of(k)] ELSE 777
\* everyone registered, in order, once; whoever is told sees the world and the engine value that belong together
Update == LET new == [i \in 1..Len(pv) |-> IF \E k \in 1..Known : Of(k) = i THEN Ev.v[CHOOSE k \in 1..Known : Of(k) = i] ELSE pv[i]] IN
          /\ pv' = new /\ Ev.w = World(new)
          /\ Len(Ev.seen) = Known /\ \A k \in 1..Known : Ev.seen[k] = <<Cfg.order[k], World(new)[Of(k)], new[Of(k)]>>
SetWorld == /\ pv' = [pv EXCEPT ![Ev.i + 1] = Ev.v \div Cfg.f[Ev.i + 1]] /\ Ev.w = Ev.v /\ Ev.ev = Ev.v \div Cfg.f[Ev.i + 1]
            /\ Ev.seen = <<<<Ev.i, Ev.v, Ev.ev>>>>
Cov == Len(Ev.o) = Known * Known /\ \A i, j \in 1..Known : LET k == ((i - 1) * Known) + j IN Ev.o[k] = Ev.c[k] * Cfg.f[Of(i)] * Cfg.f[Of(j)]
\* the residuals, in thousandths
Block(b) == CASE b.e = "Data" -> [i \in 1..Len(b.d) |-> 1000 * b.w[i] * (b.d[i] - b.m[i])]
              [] b.e = "Curved" -> [i \in 1..Len(b.k) |-> IF b.w[i] = 0 THEN 0 ELSE (b.k[i] * 69315) \div 10]
              [] b.e = "World" -> <<1000 * b.we * ((2 * pv[b.p]) - b.ex)>>
              [] b.e = "Engine" -> <<1000 * b.we * (b.ex - pv[b.p])>>
RECURSIVE Blocks(_)
Blocks(k) == IF k = 0 THEN <<>> ELSE Blocks(k - 1) \o Seq1(Block(bl[k]))
Residuals == LET r == TLCEval(Blocks(Len(bl)))  n == Len(r) IN
             /\ Ev.n = n /\ Len(Ev.v) = n + 3
             /\ \A i \in 1..(n + 3) : IF i = 1 \/ i > n + 1 THEN Ev.v[i] = 555000 ELSE Near(Ev.v[i], r[i - 1], 2)
\* the fits
RECURSIVE SumSq(_)
SumSq(r) == IF r = <<>> THEN 0 ELSE (Head(r) * Head(r)) + SumSq(Tail(r))
Fit == LET s == TLCEval(Solve(Cfg.np, Cfg.a, Cfg.d, Cfg.w)) IN
       \* the status belongs to the reason; the reported cost is that of the values the parameters were left with
       /\ Ev.status = (IF Ev.reason = 0 THEN 0 ELSE IF Ev.reason = 11 THEN 1 ELSE 2) /\ Ev.it <= Ev.itmax
       /\ Ev.chi0 = 100 * SumSq(Residual(Cfg.a, Cfg.d, Cfg.w, Ev.start))
       /\ Near(Ev.left, Ev.chi, 2 + (Ev.chi \div 10000)) /\ Ev.chi <= (100 * Ev.chi0) + 2
       \* unless it was stopped short, it is the solution
       /\ (Ev.itmax = 200 \/ Ev.reason = 0) =>
          /\ \A i \in 1..Cfg.np : Near(Ev.v[i], (10000 * s.num[i]) \div s.det, 3)
          \* (the numerical derivative of GSL has no digits left where an engine value is nearly 0)
          /\ (\A i \in 1..Cfg.np : s.num[i] # 0 /\ s.num[i] # 5 * s.det) =>
             \A i \in 1..Cfg.np : LET e == (((1000 * s.chi) \div s.det) * s.inv[i]) \div (s.det * (Len(Cfg.d) - Cfg.np)) IN Near(Ev.s2[i], e, 2 + (e \div 100) + s.inv[i])
Sqrt(v) == CHOOSE r \in 0..5 : r * r = v
Status == IF Cfg.ret = -1 \/ Cfg.reason \in {4, 7} THEN 2 ELSE IF Cfg.reason = 3 THEN 1 ELSE 0
Lev == /\ Ev.start = Cfg.init /\ Ev.itmax = Cfg.itmax /\ Ev.def
       /\ Len(Ev.res) = Len(Cfg.points)
       /\ \A k \in 1..Len(Cfg.points) : Ev.res[k] = Residual(Cfg.a, Cfg.d, Cfg.w, [i \in 1..Cfg.np |-> Cfg.f[i] * Cfg.points[k][i]])
       /\ Ev.v = [i \in 1..Cfg.np |-> Cfg.f[i] * Cfg.points[Cfg.best + 1][i]]
       /\ Ev.sig = [i \in 1..Cfg.np |-> Cfg.f[i] * Sqrt(Cfg.cov[((i - 1) * Cfg.np) + i])]
       /\ Ev.status = Status /\ Ev.it = Cfg.iter /\ Ev.reason = Cfg.reason
Same == UNCHANGED <<pv, bl>>
TNext == \/ IsEv("Sig") /\ Sig /\ Same
         \/ IsEv("Exp") /\ Exp /\ Same
         \/ IsEv("Lin") /\ Lin /\ Same
         \/ IsEv("Range") /\ InRange /\ Same
         \/ IsEv("Refuse") /\ Refuse /\ Same
         \/ IsEv("Values") /\ Values /\ Same
         \/ IsEv("Update") /\ Update /\ UNCHANGED bl
         \/ IsEv("SetWorld") /\ SetWorld /\ UNCHANGED bl
         \/ IsEv("Cov") /\ Cov /\ Same
         \/ (\E e \in {"Data", "Curved", "World", "Engine"} : IsEv(e)) /\ bl' = Append(bl, Ev) /\ UNCHANGED pv
         \/ IsEv("Set") /\ pv' = [pv EXCEPT ![Ev.p] = Ev.v] /\ UNCHANGED bl
         \/ IsEv("Residuals") /\ Residuals /\ Same
         \/ IsEv("Sizes") /\ Ev.refused = ~(Ev.a = Ev.b /\ Ev.a = Ev.c) /\ Same
         \/ IsEv("Fit") /\ Fit /\ Same
         \/ IsEv("Lev") /\ Lev /\ Same
         \/ IsEv("End") /\ Same
         \/ l > Len(Evs) /\ UNCHANGED <<c, l>> /\ Same
TSpec == TInit /\ [][TNext]_<<c, l, pv, bl>>
=============================================================================
