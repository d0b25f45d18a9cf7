----------------------------- MODULE Photometry -----------------------------
(* What an aperture measures.  Geometry in whole numbers: centres in 1/16 of a *)
(* pixel, radii of circles in 1/32 (odd), of ellipses in 1/64, the ellipse's   *)
(* quadratic form in 1/8, areas, fluxes and variances in hundredths.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
\* an aperture: [circ, r, ell, jac, cx, cy]; jac maps the detection frame (where the aperture has its shape) to the image
Det(j) == (j[1] * j[4]) - (j[2] * j[3])
\* the place of pixel p relative to the centre, back in the frame of the shape, in 1/(16 det)
Back(a, p) == LET dx == (16 * p[1]) - a.cx  dy == (16 * p[2]) - a.cy
              IN <<(dx * a.jac[4]) - (dy * a.jac[3]), (dy * a.jac[1]) - (dx * a.jac[2])>>
Sq(x) == x * x
R2(a, p) == LET n == Back(a, p) IN (a.ell[1] * Sq(n[1])) + (a.ell[2] * Sq(n[2])) + (a.ell[3] * n[1] * n[2])   \* 1/(2048 det^2)
\* a hundred samples of the pixel against the radius
Samples(a, n) == LET d == Det(a.jac)  lim == 25 * Sq(a.r) * Sq(d) IN
  Cardinality({s \in (0..9) \X (0..9) : 4 * (Sq((5 * n[1]) + (8 * d * (s[1] - 5))) + Sq((5 * n[2]) + (8 * d * (s[2] - 5)))) <= lim})
CircleArea(a, p) == LET n == Back(a, p)  d4 == 100 * (Sq(n[1]) + Sq(n[2])) IN
  IF 5 * a.r > 114 /\ d4 < Sq((5 * a.r) - 114) THEN 100 ELSE IF d4 > Sq((5 * a.r) + 114) THEN 0 ELSE Samples(a, n)
EllipseArea(a, p) == IF 2 * R2(a, p) < Sq(a.r * Det(a.jac)) THEN 100 ELSE 0
Area(a, p) == IF a.circ THEN CircleArea(a, p) ELSE EllipseArea(a, p)
\* the pixel's own place is inside
Centre(a, p) == IF a.circ THEN LET n == Back(a, p) IN 4 * (Sq(n[1]) + Sq(n[2])) <= Sq(a.r * Det(a.jac)) ELSE EllipseArea(a, p) = 100
Rigid(j) == (j[1] = 0 /\ j[4] = 0 /\ Sq(j[2]) = 1 /\ Sq(j[3]) = 1) \/ (j[2] = 0 /\ j[3] = 0 /\ Sq(j[1]) = 1 /\ Sq(j[4]) = 1)
\* the box of an aperture <<x0, y0, x1, y1>>
Boxed(b) == (b[1]..b[3]) \X (b[2]..b[4])
Around(b, k) == ((b[1] - k)..(b[3] + k)) \X ((b[2] - k)..(b[4] + k))
Covers(a, b) == \A p \in Around(b, 2) \ Boxed(b) : IF ~a.circ \/ Rigid(a.jac) THEN Area(a, p) = 0 ELSE ~Centre(a, p)
\* and is not much larger than the aperture
Tight(a, b) == a.jac = <<1, 0, 0, 1>> /\ a.circ => b[3] - b[1] <= (a.r \div 16) + 5 /\ b[4] - b[2] <= (a.r \div 16) + 5
\* an image: [w, h, px, var, mask2 (twice the limit of the variance), sym]
Inside(m, p) == p[1] >= 0 /\ p[2] >= 0 /\ p[1] < m.w /\ p[2] < m.h
At(m, f, p) == f[(p[2] * m.w) + p[1] + 1]
Bad(m, p) == 2 * At(m, m.var, p) > m.mask2
Mirror(a, p) == <<((2 * a.cx) - (16 * p[1]) + 7) \div 16, ((2 * a.cy) - (16 * p[2]) + 7) \div 16>>
MirrorOk(m, q) == Inside(m, q) /\ 2 * At(m, m.var, q) < m.mask2
Value(a, m, f, p) == IF ~Bad(m, p) THEN At(m, f, p)
                     ELSE IF m.sym /\ MirrorOk(m, Mirror(a, p)) THEN At(m, f, Mirror(a, p)) ELSE 0
Sum(f, S) == FoldSet(LAMBDA x, acc : f[x] + acc, 0, S)
\* the whole measurement over a set of pixels
Measure(a, m, S) ==
  LET In == TLCEval({p \in S : Inside(m, p)})
      ar == TLCEval([p \in In |-> Area(a, p)])
      Pix == TLCEval({p \in In : ar[p] > 0})
  IN [flux |-> Sum([p \in Pix |-> ar[p] * Value(a, m, m.px, p)], Pix),
      v |-> Sum([p \in Pix |-> ar[p] * Value(a, m, m.var, p)], Pix),
      area |-> Sum(ar, Pix),
      bad |-> Cardinality({p \in Pix : Bad(m, p)})]
Bit == [b \in 0..30 |-> 2^b]
Bits(v) == {b \in 0..29 : (v \div Bit[b]) % 2 = 1}
\* more than a tenth (the code adds up hundredths in single precision: exactly a tenth may fall on either side)
Tenth(n, area, set) == IF 1000 * n = area THEN TRUE ELSE set = (area > 0 /\ 1000 * n > area)
Out(m, b) == b[3] < 0 \/ b[4] < 0 \/ b[1] >= m.w \/ b[2] >= m.h
Cut(m, b) == b[1] < 0 \/ b[2] < 0 \/ b[3] >= m.w \/ b[4] >= m.h
\* the flags B of a measurement r in box b
FluxFlags(m, b, r, B) == IF Out(m, b) THEN B = {5} ELSE B \subseteq {0, 3} /\ ((3 \in B) = Cut(m, b)) /\ Tenth(r.bad, r.area, 0 \in B)
\* the flags B of the detection frame: own and thr (the pixels of the source, and those above the threshold)
DetFlags(a, m, b, own, above, B) ==
  LET Pix == TLCEval({p \in Boxed(b) : Inside(m, p) /\ Area(a, p) > 0})
      area == TLCEval(Sum([p \in Pix |-> Area(a, p)], Pix))
  IN /\ B \subseteq {0, 3, 4} /\ ((3 \in B) = Cut(m, b))
     /\ Tenth(Cardinality({p \in Pix : Bad(m, p)}), area, 0 \in B)
     /\ Tenth(Cardinality({p \in Pix : above[p] /\ ~own[p]}), area, 4 \in B)
Near(x, y, t) == x - y <= t /\ y - x <= t
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF k * k <= n THEN Root(n, k, hi) ELSE Root(n, lo, k)
ISqrt(n) == Root(n, 0, 46340)
Abs(x) == IF x < 0 THEN -x ELSE x
=============================================================================
