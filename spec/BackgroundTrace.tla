--------------------------- MODULE BackgroundTrace ---------------------------
EXTENDS Background, Json, IOUtils
VARIABLES c, l, in
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases) /\ in = <<>>
Close(a, b, t) == Abs(a - b) <= t
\* ---- the parts on their own
Median == LET m == TLCEval(Filter2(Ev.a, Ev.w, Ev.h, Ev.bw, Ev.bh)) v == TLCEval(Filter2(Ev.b, Ev.w, Ev.h, Ev.bw, Ev.bh)) IN
  /\ Len(Ev.oa) = Len(Ev.a) /\ Len(Ev.ob) = Len(Ev.a)
  /\ \A i \in 1..Len(Ev.a) : LET moved == Abs(m[i] - 2 * Ev.a[i]) >= 2 * Ev.t IN
       Ev.oa[i] = (IF moved THEN 500 * m[i] ELSE 1000 * Ev.a[i]) /\ Ev.ob[i] = (IF moved THEN 500 * v[i] ELSE 1000 * Ev.b[i])
Undef == /\ Len(Ev.o) = Len(Ev.a)
         /\ \A i \in 1..Len(Ev.a) : IF Ev.a[i] # Ev.u THEN Ev.o[i] = 1000 * Ev.a[i]
              ELSE LET N0 == TLCEval(Nearest(Ev.a, Ev.w, Ev.u, i)) IN IF N0 = {} THEN Ev.o[i] = 0 ELSE Close(Ev.o[i] * Cardinality(N0), 1000 * SumOver(Ev.a, N0), Cardinality(N0))
Unit == CASE Ev.unit = "0.000000" -> 1 [] Ev.unit = "0.845098" -> 7 [] Ev.unit = "5.000000" -> 100000 [] OTHER -> 0
Mode == LET good == TLCEval(SelectSeq(Ev.a, LAMBDA v : v # Ev.u)) IN
  /\ Ev.cells = Ev.want /\ Ev.undef = (2 * Len(good) < Len(Ev.a))
  /\ Ev.undef \/ LET s == TLCEval(CellStats(good, Unit)) IN
                 s.sure => ((\E v \in s.levels : Close(Ev.mode, v, s.tol)) /\ Close(Ev.sigma, s.sigma, s.stol))
\* ---- the whole
Cut(n, k) == (n + k - 1) \div k
Gw == Cut(in.w, in.cw)
Gh == Cut(in.h, in.ch)
U == -2000000000
Cell(a, g, keep) ==
  LET gx == X(g, Gw) gy == Y(g, Gw) x0 == gx * in.cw y0 == gy * in.ch
      nx == Min(in.cw, in.w - x0) ny == Min(in.ch, in.h - y0)
      all == [k \in 1..(nx * ny) |-> (x0 + ((k - 1) % nx)) + (y0 + ((k - 1) \div nx)) * in.w + 1]
      good == SelectSeq(all, LAMBDA i : keep[i])
  IN IF 2 * Len(good) < Len(all) THEN <<>> ELSE [k \in 1..Len(good) |-> a[good[k]]]
\* a cell with the levels m - d, m and m + d equally often, or with one level
Spread(a) == IF a = <<>> THEN U ELSE LET s == {a[i] : i \in 1..Len(a)} d == (MaxOf(s) - MinOf(s)) \div 2 IN (8165 * d) \div 10
Level(a) == IF a = <<>> THEN U ELSE LET s == {a[i] : i \in 1..Len(a)} IN 500 * (MaxOf(s) + MinOf(s))
Half2(f) == [i \in 1..Len(f) |-> f[i] \div 2]
Smooth(g) == LET d == TLCEval(Defined(g, Gw, U)) IN Half2(Filter2(d, Gw, Gh, in.bw, in.bh))
All == 1..(Gw * Gh)
MedianOf(a) == Median2(a) \div 2
OutOfImage == 2000000002
Same(r, v, t) == Close(r[1], v, t) /\ Close(r[2], v, t)
Model ==
  LET use == TLCEval([i \in 1..Len(in.px) |-> in.mask[i] = 0 /\ (in.weighted => in.var[i] < in.thr)])
      useW == TLCEval([i \in 1..Len(in.px) |-> in.var[i] < in.thr])
      cells == TLCEval([g \in All |-> Cell(in.px, g, use)])
      level == TLCEval(Smooth([g \in All |-> Level(cells[g])]))
      sigma == TLCEval(Smooth([g \in All |-> Spread(cells[g])]))
      weight == TLCEval(IF in.weighted THEN Smooth([g \in All |-> Level(Cell(in.var, g, useW))]) ELSE <<>>)
      top == MaxOf({sigma[g] : g \in All})
      tolL == (35 * MaxOf({0} \cup {Spread(cells[g]) : g \in All})) \div 100 + 5
      tolS(v) == (12 * v) \div 100 + 3
      inside(o) == {g \in All : o[g] # OutOfImage}
      sig100 == [g \in All |-> Ev.sigma[g] \div 10]
      ratios == {g \in All : weight[g] > 0 /\ Ev.sigma[g] > 0}
      seq == TLCEval(SelectSeq([g \in All |-> IF g \in ratios THEN (10 * sig100[g] * sig100[g]) \div weight[g] ELSE -1], LAMBDA v : v >= 0))
  IN /\ Ev.size = <<in.w, in.h, in.w, in.h>>
     /\ \A g \in inside(Ev.level) : Close(Ev.level[g], level[g], tolL)
     /\ (\A g \in All : level[g] = level[1]) => (in.noisy \/ Same(Ev.lrange, level[1], 5))
     /\ Close(Ev.rms, MedianOf(sigma), tolS(MedianOf(sigma)))
     /\ IF in.weighted THEN \A g \in inside(Ev.sigma) : Close(Ev.sigma[g], sigma[g], tolS(sigma[g]) + (IF in.noisy THEN 100 ELSE 0))
        ELSE \A g \in inside(Ev.sigma) : Close(Ev.sigma[g], Ev.rms, 2)
     /\ IF ~in.weighted THEN Ev.scaling = -1
        ELSE IF ~in.noisy \/ top = 0 THEN Ev.scaling = 1000
        ELSE IF seq = <<>> THEN Ev.scaling = 1000 ELSE Close(Ev.scaling, 5 * Median2(seq), 20 + Median2(seq) \div 5)
Simple ==
  LET s == TLCEval(Sorted(Ev.a)) n == Len(Ev.a) lv == s[n \div 2 + 1]
      below == TLCEval(SelectSeq(Ev.a, LAMBDA v : v < lv)) k == Len(below)
      sq == SumTo([i \in 1..k |-> (below[i] - lv) * (below[i] - lv)], k)
  IN /\ Ev.size = <<Ev.w, Len(Ev.a) \div Ev.w, Ev.w, Len(Ev.a) \div Ev.w, Ev.w, Len(Ev.a) \div Ev.w>> /\ Ev.level = 1000 * lv /\ Ev.scaling = 1000
     /\ IF k = 0 THEN Ev.var = 0 /\ Ev.rms = 0
        ELSE Close(Ev.var, (10 * sq) \div k, 1 + sq \div (k * 1000)) /\ Close((Ev.rms \div 100) * (Ev.rms \div 100), 10 * Ev.var, 2 * (Ev.rms \div 100) + 25)
Positive(v) == \A i \in 1..Len(v) : v[i] > 0
Options == LET bad == ~Positive(Ev.cell) \/ \E i \in 1..Len(Ev.box) : Ev.box[i] < 0 IN
           Ev.refused = bad /\ (bad \/ (Ev.gcell = Ev.cell /\ Ev.gbox = Ev.box))
Keep == in' = in
TNext == \/ IsEv("Median") /\ TRUE = Median /\ Keep
         \/ IsEv("Undef") /\ TRUE = Undef /\ Keep
         \/ IsEv("Mode") /\ TRUE = Mode /\ Keep
         \/ IsEv("Analyze") /\ in' = Ev
         \/ IsEv("Model") /\ TRUE = Model /\ Keep
         \/ IsEv("Simple") /\ TRUE = Simple /\ Keep
         \/ IsEv("Sizes") /\ Ev.refused = ~Ev.same /\ Keep
         \/ IsEv("Options") /\ TRUE = Options /\ Keep
         \/ IsEv("End") /\ Keep
         \/ l > Len(Evs) /\ UNCHANGED <<c, l, in>>
TSpec == TInit /\ [][TNext]_<<c, l, in>>
=============================================================================
