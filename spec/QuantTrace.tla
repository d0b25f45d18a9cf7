----------------------------- MODULE QuantTrace -----------------------------
EXTENDS Quant, TLC, Json, IOUtils
VARIABLES c, l
Cases == ndJsonDeserialize(IOEnv.TRACE)
Evs == Cases[c].ev
Ev == Evs[l]
Cfg == Cases[c].cfg
IsEv(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
TInit == l = 1 /\ c \in 1..Len(Cases)
D == Cfg.d
Val(fr, p) == fr.v[p[2] * fr.w + p[1] + 1]
In(fr, p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] < fr.w /\ p[2] < fr.h
Var(p) == Cfg.s[p[2] * D.w + p[1] + 1]
Rms(p) == IF Var(p) = 4 THEN 2 ELSE 1
Detected == {p \in (0..(D.w - 1)) \X (0..(D.h - 1)) : 2 * Val(D, p) > 7 * Rms(p)}
NAN == 999999999
\* ---- the place and the light
Peak(r, C) == LET top == MaxOf({Val(D, p) : p \in C}) IN r.peak[1] = top /\ <<r.peak[2] - 1, r.peak[3] - 1>> \in {p \in C : Val(D, p) = top}
Centre(r, m) == Near(r.centre[1] * m.t, 10000 * (m.sx + (m.bx + 1) * m.t), m.t + 100) /\ Near(r.centre[2] * m.t, 10000 * (m.sy + (m.by + 1) * m.t), m.t + 100)
World(r, m) == \A k \in {1, 2} : LET pos == IF k = 1 THEN m.sx + m.bx * m.t ELSE m.sy + m.by * m.t IN
                 Near(2 * r.world[k] * m.t, 10000 * (D.at[k] * m.t + D.at[k + 2] * pos), 8 * m.t + 800)
Flux(r, C) == LET f == SumOf(LAMBDA p : Val(D, p), C) IN LET v == SumOf(Var, C) IN
  LET e2 == 1000000 * v + (IF Cfg.gain > 0 THEN (1000000 * f) \div Cfg.gain ELSE 0) IN
  /\ r.flux = f /\ r.n = Cardinality(C) /\ r.area = Cardinality(C)
  /\ Near(r.err * r.err, e2, 2 * r.err + 2000)
  /\ Near(r.snr * (r.err \div 10), f * 100000, (r.snr + r.err) \div 5 + 1000 + r.snr)
  /\ LET g == Mag(f, 2) IN g >= 0 => Near(r.mag, 100000 * Cfg.zero - g, 12)
  /\ Near(r.magerr * f, (r.err * 10857) \div 100, 2 * f + 400)
\* ---- the shape
Shape(r, m) == LET q == TLCEval(Second(m)) IN
  LET a2 == r.a * r.a b2 == r.b * r.b IN
  /\ r.a >= r.b /\ Near(a2 + b2, 1000 * (q.x + q.y), 2 * (r.a + r.b) + 3000)
  /\ Near(((a2 - b2) \div 1000) * r.cos, (q.x - q.y) * 10000, 60000 + 20 * r.a)
  /\ Near(((a2 - b2) \div 1000) * r.sin, 2 * q.xy * 10000, 60000 + 20 * r.a)
  /\ Abs(r.theta) <= 90001
  /\ r.b > 100 => Near(r.elong * (r.b \div 1), r.a * 1000, r.elong + r.b + 1000) /\ Near((1000 - r.ellip) * r.a, 1000 * r.b, 2 * r.a + 2000)
\* the ellipse as a quadratic form: the inverse of the matrix of the moments, made invertible by a pixel's own width when it is not
Inverse(r, q) == LET tol == 2 * (Abs(r.cxx) + Abs(r.cyy) + Abs(r.cxy)) + q.x + q.y + 1000 IN
  /\ Near(r.cxx * q.x + Div(r.cxy * q.xy, 2), 1000000, tol) /\ Near(r.cyy * q.y + Div(r.cxy * q.xy, 2), 1000000, tol)
  /\ Near(r.cxx * q.xy + Div(r.cxy * q.y, 2), 0, tol) /\ Near(r.cyy * q.xy + Div(r.cxy * q.x, 2), 0, tol)
Moderate(r) == Abs(r.cxx) <= 100000 /\ Abs(r.cyy) <= 100000 /\ Abs(r.cxy) <= 200000
Det(q) == q.x * q.y - q.xy * q.xy
Wide(q) == [q EXCEPT !.x = @ + 83, !.y = @ + 83]
Form(r, q) == Moderate(r) => \/ Det(q) - 6940 <= q.x + q.y + 2 /\ Inverse(r, Wide(q))
                             \/ Det(q) - 6940 >= -(q.x + q.y + 2) /\ Inverse(r, q)
\* ---- the error of the barycentre
IsLine(q) == (q.x = 0 \/ q.y = 0 \/ (q.x = q.y /\ Abs(q.xy) = q.x))
Errs(r, C, m, q) == LET e == TLCEval(Errors(C, m, [p \in C |-> Var(p)])) IN
  LET Plain == Near(r.ex, e.x, e.tol) /\ Near(r.ey, e.y, e.tol)
      Added == Near(r.ex, e.x + e.v, e.tol + 2) /\ Near(r.ey, e.y + e.v, e.tol + 2) IN
  /\ Near(r.exy, e.xy, e.tol)
  /\ IF IsLine(q) THEN Added ELSE Plain \/ (Det(q) - 6940 <= q.x + q.y + 2 /\ Added)
ErrEllipse(r) == LET a2 == r.ea * r.ea b2 == r.eb * r.eb IN
  /\ r.ea >= r.eb /\ Near(a2 + b2, 100 * (r.ex + r.ey), 2 * (r.ea + r.eb) + 300)
  /\ Near(((a2 - b2) \div 1000) * r.ecos, (r.ex - r.ey) * 1000, 20 * r.ea + 60000)
  /\ Near(((a2 - b2) \div 1000) * r.esin, 2 * r.exy * 1000, 20 * r.ea + 60000)
  /\ Abs(r.etheta) <= 90001
\* ---- the surroundings
Stamp(r, C) == LET b == Box(C) s == r.stamp IN
  /\ s[1] >= 0 /\ s[2] >= 0 /\ s[1] + s[3] <= D.w /\ s[2] + s[4] <= D.h
  /\ s[1] <= MaxOf({0, b[1] - 1}) /\ s[2] <= MaxOf({0, b[2] - 1})
  /\ s[1] + s[3] - 1 >= MinOf({D.w - 1, b[3] + 1}) /\ s[2] + s[4] - 1 >= MinOf({D.h - 1, b[4] + 1})
\* nearest integers to a / b (b > 0), both if it is half way
Nearest(a, b) == LET k == (2 * a + b) \div (2 * b) IN IF (2 * a + b) % (2 * b) = 0 THEN {k, k - 1} ELSE {k}
Ratio(a, b) == IF b < 0 THEN <<-a, -b>> ELSE <<a, b>>
\* the pixel of the frame fr nearest to the barycentre
At(fr, m, k) == LET pos == IF k = 1 THEN m.sx + m.bx * m.t ELSE m.sy + m.by * m.t IN
  LET q == Ratio((D.at[k] - fr.at[k]) * m.t + D.at[k + 2] * pos, fr.at[k + 2] * m.t) IN Nearest(q[1], q[2])
\* the detection pixels at a position of the frame fr
DetAt(fr, x, k) == LET q == Ratio(World2(fr, x, k) - D.at[k], D.at[k + 2]) IN Nearest(q[1], q[2])
VignetPixel(fr, C, det, x, y) ==
  IF ~In(fr, <<x, y>>) THEN {-7}
  ELSE {IF In(D, p) /\ p \in det /\ p \notin C THEN -7 ELSE Val(fr, <<x, y>>) : p \in DetAt(fr, x, 1) \X DetAt(fr, y, 2)}
VW == Cfg.vignet[1]
VH == Cfg.vignet[2]
VignetOf(r, k, C, m, det) == LET fr == Cfg.m[k] IN LET n == VW * VH IN
  \E cx \in At(fr, m, 1), cy \in At(fr, m, 2) :
    \A i \in 0..(n - 1) : r.vignet[(k - 1) * n + i + 1] \in VignetPixel(fr, C, det, cx - VW \div 2 + (i \div VH), cy - VH \div 2 + (i % VH))   \* the first axis is x
Total(fr) == SumOf(LAMBDA i : fr.v[i], 1..Len(fr.v))
Everything(r) == Cfg.python => /\ Len(r.all) = 2 * Len(Cfg.m)
                               /\ \A k \in 1..Len(Cfg.m) : LET t == Total(Cfg.m[k]) IN \A a \in 1..2 : Near(r.all[2 * (k - 1) + a], 10 * t, 2)
Row(r, C, det) ==
  LET v == [p \in C |-> Val(D, p)] IN LET m == TLCEval(Moments(C, v)) IN LET q == TLCEval(Second(m)) IN
  /\ r.box = Box(C) /\ Peak(r, C) /\ Centre(r, m) /\ World(r, m) /\ Flux(r, C) /\ Stamp(r, C)
  /\ Cardinality(C) <= 16 /\ m.t <= 144 /\ Extent(C, 1) <= 5 /\ Extent(C, 2) <= 5 => Shape(r, m) /\ Form(r, q) /\ Errs(r, C, m, q) /\ ErrEllipse(r)
  /\ Cfg.python => Len(r.vignet) = VW * VH * Len(Cfg.m) /\ \A k \in 1..Len(Cfg.m) : VignetOf(r, k, C, m, det)
  /\ Everything(r)
TRows == /\ IsEv("Rows") /\ Ev.rc = 0
         /\ TRUE = (LET det == TLCEval(Detected) IN LET all == TLCEval(Comps(det)) IN
                    /\ Len(Ev.rows) = Cardinality(all)
                    /\ \A C \in all : \E i \in 1..Len(Ev.rows) : Row(Ev.rows[i], C, det))
TNext ==
  \/ TRows
  \/ IsEv("End") /\ l = 2
  \/ l > Len(Evs) /\ UNCHANGED <<c, l>>
TSpec == TInit /\ [][TNext]_<<c, l>>
=============================================================================
